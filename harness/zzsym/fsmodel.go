package zzsym

import (
	"compress/gzip"
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

// A file system, an environment, child processes and compressed streams for
// the executor. Natively the real ones are used.

type fsEnt struct {
	name string
	dir  bool
	perm fs.FileMode
	data []byte
}

type fsFile struct {
	f           *os.File
	ent         *fsEnt
	name        string
	pos         int
	read, write bool
	closed      bool
	app         bool
}

var fsEnts = []*fsEnt{{name: "/", dir: true}, {name: "/tmp", dir: true}, {name: ".", dir: true}}
var fsFiles []*fsFile
var fsTemp int

func fsErr(op, name string, err error) error {
	return &fs.PathError{Op: op, Path: name, Err: err}
}

func fsFind(name string) *fsEnt {
	name = filepath.Clean(name)
	for _, e := range fsEnts {
		if e.name == name {
			return e
		}
	}
	return nil
}

func fsOpen(name string, flag int, perm fs.FileMode) (*os.File, error) {
	e := fsFind(name)
	mode := flag & (os.O_WRONLY | os.O_RDWR)
	switch {
	case e == nil:
		if flag&os.O_CREATE == 0 {
			return nil, fsErr("open", name, fs.ErrNotExist)
		}
		d := fsFind(filepath.Dir(name))
		if d == nil || !d.dir {
			return nil, fsErr("open", name, fs.ErrNotExist)
		}
		e = &fsEnt{name: filepath.Clean(name), perm: perm &^ 022}
		fsEnts = append(fsEnts, e)
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, fsErr("open", name, fs.ErrExist)
	case e.dir && mode != 0:
		return nil, fsErr("open", name, errors.New("is a directory"))
	case flag&os.O_TRUNC != 0 && mode != 0:
		e.data = nil
	}
	f := new(os.File)
	fsFiles = append(fsFiles, &fsFile{f: f, ent: e, name: name, read: mode != os.O_WRONLY, write: mode != 0, app: flag&os.O_APPEND != 0})
	return f, nil
}

func fsOf(f *os.File) *fsFile {
	for _, s := range fsFiles {
		if s.f == f {
			return s
		}
	}
	return nil
}

func Model__os__Open(name string) (*os.File, error) { return fsOpen(name, os.O_RDONLY, 0) }
func Model__os__Create(name string) (*os.File, error) {
	return fsOpen(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func Model__os__OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	return fsOpen(name, flag, perm)
}

func Model__os__PFile__Name(f *os.File) string { return fsOf(f).name }
func Model__os__PFile__Sync(f *os.File) error  { return nil }
func Model__os__PFile__Close(f *os.File) error {
	s := fsOf(f)
	if f == nil || s == nil || s.closed {
		return os.ErrClosed
	}
	s.closed = true
	return nil
}
func Model__os__PFile__Read(f *os.File, b []byte) (int, error) {
	s := fsOf(f)
	if f == nil || s == nil || s.closed || !s.read || s.ent.dir {
		return 0, fsErr("read", "", os.ErrInvalid)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.ent.data) {
		return 0, io.EOF
	}
	n := copy(b, s.ent.data[s.pos:])
	s.pos += n
	return n, nil
}
func Model__os__PFile__Write(f *os.File, b []byte) (int, error) {
	s := fsOf(f)
	if s == nil { // standard output and the like
		return len(b), nil
	}
	if s.closed || !s.write {
		return 0, fsErr("write", s.name, os.ErrClosed)
	}
	if s.app || s.pos > len(s.ent.data) {
		s.pos = len(s.ent.data)
	}
	d := append([]byte(nil), s.ent.data[:s.pos]...)
	d = append(d, b...)
	if s.pos+len(b) < len(s.ent.data) {
		d = append(d, s.ent.data[s.pos+len(b):]...)
	}
	s.ent.data = d
	s.pos += len(b)
	return len(b), nil
}
func Model__os__PFile__WriteString(f *os.File, b string) (int, error) {
	return Model__os__PFile__Write(f, []byte(b))
}
func Model__os__PFile__Chmod(f *os.File, mode fs.FileMode) error {
	fsOf(f).ent.perm = mode
	return nil
}

func Model__os__ReadFile(name string) ([]byte, error) {
	e := fsFind(name)
	if e == nil {
		return nil, fsErr("open", name, fs.ErrNotExist)
	}
	if e.dir {
		return nil, fsErr("read", name, errors.New("is a directory"))
	}
	return append([]byte{}, e.data...), nil
}
func Model__os__WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := fsOpen(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = Model__os__PFile__Write(f, data)
	Model__os__PFile__Close(f)
	return err
}
func fsUnder(name, dir string) bool {
	return len(name) > len(dir) && name[:len(dir)] == dir && (dir == "/" || name[len(dir)] == '/')
}
func Model__os__Remove(name string) error {
	name = filepath.Clean(name)
	for i, e := range fsEnts {
		if e.name == name {
			if e.dir {
				for _, o := range fsEnts {
					if fsUnder(o.name, name) {
						return fsErr("remove", name, errors.New("directory not empty"))
					}
				}
			}
			fsEnts = append(fsEnts[:i:i], fsEnts[i+1:]...)
			return nil
		}
	}
	return fsErr("remove", name, fs.ErrNotExist)
}
func Model__os__RemoveAll(name string) error {
	name = filepath.Clean(name)
	var left []*fsEnt
	for _, e := range fsEnts {
		if e.name != name && !fsUnder(e.name, name) {
			left = append(left, e)
		}
	}
	fsEnts = left
	return nil
}
func Model__os__Rename(from, to string) error {
	e := fsFind(from)
	if e == nil {
		return fsErr("rename", from, fs.ErrNotExist)
	}
	if e.dir {
		panic("zzsym: rename of a directory")
	}
	d := fsFind(filepath.Dir(to))
	if d == nil || !d.dir {
		return fsErr("rename", to, fs.ErrNotExist)
	}
	Model__os__Remove(to)
	e.name = filepath.Clean(to)
	return nil
}
func Model__os__Mkdir(name string, perm fs.FileMode) error {
	if fsFind(name) != nil {
		return fsErr("mkdir", name, fs.ErrExist)
	}
	d := fsFind(filepath.Dir(name))
	if d == nil || !d.dir {
		return fsErr("mkdir", name, fs.ErrNotExist)
	}
	fsEnts = append(fsEnts, &fsEnt{name: filepath.Clean(name), dir: true, perm: perm})
	return nil
}
func Model__os__MkdirAll(name string, perm fs.FileMode) error {
	if e := fsFind(name); e != nil {
		if !e.dir {
			return fsErr("mkdir", name, errors.New("not a directory"))
		}
		return nil
	}
	if err := Model__os__MkdirAll(filepath.Dir(name), perm); err != nil {
		return err
	}
	return Model__os__Mkdir(name, perm)
}
func fsTempName(dir, pattern string) string {
	if dir == "" {
		dir = Model__os__TempDir()
	}
	fsTemp++
	n := string([]byte{'0' + byte(fsTemp/10%10), '0' + byte(fsTemp%10)})
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			return filepath.Join(dir, pattern[:i]+n+pattern[i+1:])
		}
	}
	return filepath.Join(dir, pattern+n)
}
func Model__os__MkdirTemp(dir, pattern string) (string, error) {
	name := fsTempName(dir, pattern)
	return name, Model__os__Mkdir(name, 0700)
}
func Model__os__CreateTemp(dir, pattern string) (*os.File, error) {
	return fsOpen(fsTempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

type fsInfo struct{ e *fsEnt }

func (i *fsInfo) Name() string { return filepath.Base(i.e.name) }
func (i *fsInfo) Size() int64  { return int64(len(i.e.data)) }
func (i *fsInfo) Mode() fs.FileMode {
	if i.e.dir {
		return i.e.perm | fs.ModeDir
	}
	return i.e.perm
}
func (i *fsInfo) ModTime() time.Time         { return time.Unix(1500000000, 0) }
func (i *fsInfo) IsDir() bool                { return i.e.dir }
func (i *fsInfo) Sys() interface{}           { return nil }
func (i *fsInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i *fsInfo) Info() (fs.FileInfo, error) { return i, nil }
func (i *fsInfo) String() string             { return i.Name() }

func Model__os__Stat(name string) (fs.FileInfo, error) {
	e := fsFind(name)
	if e == nil {
		return nil, fsErr("stat", name, fs.ErrNotExist)
	}
	return &fsInfo{e}, nil
}
func Model__os__Lstat(name string) (fs.FileInfo, error) { return Model__os__Stat(name) }
func Model__os__PFile__Stat(f *os.File) (fs.FileInfo, error) {
	return &fsInfo{fsOf(f).ent}, nil
}

func fsSorted(in []*fsEnt) []*fsEnt {
	for i := 1; i < len(in); i++ {
		for j := i; j > 0 && in[j].name < in[j-1].name; j-- {
			in[j], in[j-1] = in[j-1], in[j]
		}
	}
	return in
}

func fsList(name string) ([]*fsEnt, error) {
	d := fsFind(name)
	if d == nil {
		return nil, fsErr("open", name, fs.ErrNotExist)
	}
	var out []*fsEnt
	for _, e := range fsEnts {
		if e != d && filepath.Dir(e.name) == d.name {
			out = append(out, e)
		}
	}
	return fsSorted(out), nil
}

func Model__os__ReadDir(name string) ([]fs.DirEntry, error) {
	l, err := fsList(name)
	var out []fs.DirEntry
	for _, e := range l {
		out = append(out, &fsInfo{e})
	}
	return out, err
}
func Model__io_ioutil__ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := fsList(name)
	var out []fs.FileInfo
	for _, e := range l {
		out = append(out, &fsInfo{e})
	}
	return out, err
}
func Model__path_filepath__Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	var out []*fsEnt
	for _, e := range fsEnts {
		if ok, _ := filepath.Match(pattern, e.name); ok {
			out = append(out, e)
		}
	}
	var names []string
	for _, e := range fsSorted(out) {
		names = append(names, e.name)
	}
	return names, nil
}

var envVars []struct{ k, v string }

func Model__os__LookupEnv(k string) (string, bool) {
	for i := range envVars {
		if envVars[i].k == k {
			return envVars[i].v, true
		}
	}
	return "", false
}
func Model__os__Getenv(k string) string {
	v, _ := Model__os__LookupEnv(k)
	return v
}
func Model__os__Unsetenv(k string) error {
	for i := range envVars {
		if envVars[i].k == k {
			envVars = append(envVars[:i:i], envVars[i+1:]...)
			break
		}
	}
	return nil
}
func Model__os__Setenv(k, v string) error {
	Model__os__Unsetenv(k)
	envVars = append(envVars, struct{ k, v string }{k, v})
	return nil
}
func Model__os__TempDir() string {
	if d := Model__os__Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

// Exec stands for running a program, for the executor: what it prints given
// its arguments and input, and how it ends. StartErr, if set, is why it
// cannot be started.
var Exec func(args []string, stdin []byte) (stdout []byte, err error)
var StartErr error

type execState struct {
	c           *exec.Cmd
	in, out     []byte
	inPipe      bool
	inClosed    bool
	started     bool
	ran, waited bool
	err         error
}

var execs []*execState

func execOf(c *exec.Cmd) *execState {
	for _, s := range execs {
		if s.c == c {
			return s
		}
	}
	s := &execState{c: c}
	execs = append(execs, s)
	return s
}

func (s *execState) run() {
	if s.ran {
		return
	}
	if s.inPipe && !s.inClosed {
		panic("zzsym: the program waits for its input and this for its output")
	}
	s.ran = true
	if s.c.Stdin != nil {
		b, err := io.ReadAll(s.c.Stdin)
		if err != nil {
			panic("zzsym: reading the input of a program failed")
		}
		s.in = b
	}
	s.out, s.err = Exec(s.c.Args, s.in)
	if s.c.Stdout != nil {
		s.c.Stdout.Write(s.out)
		s.out = nil
	}
}

type execIn struct{ s *execState }

func (p *execIn) Write(b []byte) (int, error) {
	if p.s.inClosed || !p.s.started {
		return 0, os.ErrClosed
	}
	p.s.in = append(p.s.in, b...)
	return len(b), nil
}
func (p *execIn) Close() error { p.s.inClosed = true; return nil }

type execOut struct{ s *execState }

func (p *execOut) Read(b []byte) (int, error) {
	p.s.run()
	if p.s.waited {
		return 0, os.ErrClosed
	}
	if len(p.s.out) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.s.out)
	p.s.out = p.s.out[n:]
	return n, nil
}
func (p *execOut) Close() error { return nil }

func Model__os_exec__Command(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}
func Model__os_exec__LookPath(name string) (string, error) {
	return name, StartErr
}
func Model__os_exec__PCmd__StdinPipe(c *exec.Cmd) (io.WriteCloser, error) {
	s := execOf(c)
	s.inPipe = true
	return &execIn{s}, nil
}
func Model__os_exec__PCmd__StdoutPipe(c *exec.Cmd) (io.ReadCloser, error) {
	return &execOut{execOf(c)}, nil
}
func Model__os_exec__PCmd__Start(c *exec.Cmd) error {
	if StartErr != nil {
		return StartErr
	}
	execOf(c).started = true
	return nil
}
func Model__os_exec__PCmd__Wait(c *exec.Cmd) error {
	s := execOf(c)
	if !s.started || s.waited {
		return errors.New("exec: not started or already waited for")
	}
	s.run()
	s.waited = true
	return s.err
}
func Model__os_exec__PCmd__Run(c *exec.Cmd) error {
	if err := Model__os_exec__PCmd__Start(c); err != nil {
		return err
	}
	return Model__os_exec__PCmd__Wait(c)
}
func Model__os_exec__PCmd__Output(c *exec.Cmd) ([]byte, error) {
	if err := Model__os_exec__PCmd__Start(c); err != nil {
		return nil, err
	}
	s := execOf(c)
	s.run()
	s.waited = true
	return s.out, s.err
}

// A compressed stream is its content between two marks, the last of which
// tells its length.
type gzState struct {
	w      *gzip.Writer
	r      *gzip.Reader
	dst    io.Writer
	src    io.Reader
	buf    []byte
	got    []byte
	ended  bool
	closed bool
}

var gzs []*gzState

func gzW(w *gzip.Writer) *gzState {
	for _, s := range gzs {
		if s.w == w {
			return s
		}
	}
	panic("zzsym: no such gzip writer")
}
func gzR(r *gzip.Reader) *gzState {
	for _, s := range gzs {
		if s.r == r {
			return s
		}
	}
	panic("zzsym: no such gzip reader")
}
func Model__compress_gzip__NewWriter(w io.Writer) *gzip.Writer {
	g := new(gzip.Writer)
	gzs = append(gzs, &gzState{w: g, dst: w})
	return g
}
func Model__compress_gzip__PWriter__Write(w *gzip.Writer, b []byte) (int, error) {
	s := gzW(w)
	if s.closed {
		return 0, errors.New("gzip: closed")
	}
	s.buf = append(s.buf, b...)
	return len(b), nil
}
func Model__compress_gzip__PWriter__Flush(w *gzip.Writer) error { return nil }
func Model__compress_gzip__PWriter__Close(w *gzip.Writer) error {
	s := gzW(w)
	if s.closed {
		return nil
	}
	s.closed = true
	n := len(s.buf)
	out := append([]byte{0x1f, 0x8b, byte(n >> 8), byte(n)}, s.buf...)
	_, err := s.dst.Write(append(out, 0xed))
	return err
}
func Model__compress_gzip__NewReader(r io.Reader) (*gzip.Reader, error) {
	s := &gzState{r: new(gzip.Reader), src: r}
	gzs = append(gzs, s)
	var h [4]byte
	n, err := io.ReadFull(r, h[:])
	if n < 4 {
		if n == 0 && err == io.EOF {
			return nil, io.EOF
		}
		return nil, io.ErrUnexpectedEOF
	}
	if h[0] != 0x1f || h[1] != 0x8b {
		return nil, gzip.ErrHeader
	}
	all, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	n = int(h[2])<<8 | int(h[3])
	s.ended = len(all) > n
	if len(all) > n {
		all = all[:n]
	}
	s.got = all
	return s.r, nil
}
func Model__compress_gzip__PReader__Read(r *gzip.Reader, b []byte) (int, error) {
	s := gzR(r)
	if len(s.got) == 0 {
		if s.ended {
			return 0, io.EOF
		}
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(b, s.got)
	s.got = s.got[n:]
	return n, nil
}
func Model__compress_gzip__PReader__Close(r *gzip.Reader) error { return nil }

func Model__os__NewFile(fd uintptr, name string) *os.File { return new(os.File) }

func Model__os__PFile__Fd(f *os.File) uintptr { return 0 }
