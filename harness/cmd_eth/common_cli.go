package main

import (
	"os"
	"path/filepath"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/zzsym"
)

// zzCLI runs commands of the program in a scratch directory, with what they print.
type zzCLI struct {
	dir            string
	oldOut, oldErr *os.File
	oldIn          *os.File
	quiet          bool // what is printed depends on the ideal models
}

func zzNewCLI() (*zzCLI, func()) {
	dir, err := os.MkdirTemp("/tmp", "zz-cli-")
	zzMust(err)
	c := &zzCLI{dir: dir, oldOut: os.Stdout, oldIn: os.Stdin}
	return c, func() {
		os.Stdout, os.Stdin = c.oldOut, c.oldIn
		os.RemoveAll(dir)
	}
}

func (c *zzCLI) file(name string, data []byte) string {
	p := filepath.Join(c.dir, name)
	zzMust(os.WriteFile(p, data, 0600))
	return p
}

func (c *zzCLI) stdin(data []byte) {
	f, err := os.Open(c.file("stdin", data))
	zzMust(err)
	os.Stdin = f
}

// run runs a command as main does, and gives what it printed; the flags have
// to be given every time.
func (c *zzCLI) run(name string, args ...string) (out []byte, exited bool) {
	p := filepath.Join(c.dir, "stdout")
	f, err := os.Create(p)
	zzMust(err)
	os.Stdout = f
	cmd := subcommands[name]
	zzsym.Assert(cmd != nil, "the command exists")
	cmd.fs.Usage = func() { zzOsExit(1) }
	exited = zzRun(func() {
		zzMust(cmd.fs.Parse(args))
		cmd.do(&cmd.fs)
	})
	f.Close()
	os.Stdout = c.oldOut
	out, err = os.ReadFile(p)
	zzMust(err)
	if !c.quiet {
		zzsym.ObsBool("exited", exited)
		zzsym.ObsBytes("out", out)
	}
	return
}

func zzParam(req *seth.RPCRequest, i int, want string) {
	zzsym.Assert(len(req.Params) > i, "the request has its parameters")
	zzsym.Assert(zzsym.EqBytes(req.Params[i], []byte(want)), "the request is about what was asked")
}
