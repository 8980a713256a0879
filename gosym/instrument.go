package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Source instrumentation for native replays of schedules: every visible
// operation of the repository's code and of the harness is preceded by a
// scheduling point, so that the recorded schedule can be enforced.

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	file  *token.File
	edits []edit
}

type edit struct {
	pos, end int // replaced range
	text     string
	seq      int
}

// instrumented returns overlay entries for the files that change.
func instrumented(ps []*packages.Package, ov map[string]string, dir string) (map[string]string, error) {
	out := map[string]string{}
	var err error
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) || strings.HasSuffix(p.PkgPath, "/zzsym") {
			return
		}
		for i, f := range p.Syntax {
			if i >= len(p.CompiledGoFiles) {
				continue
			}
			name := p.CompiledGoFiles[i]
			from := name
			if s, ok := ov[name]; ok {
				from = s
			}
			src, e := os.ReadFile(from)
			if e != nil {
				err = e
				continue
			}
			in := &inst{fset: p.Fset, info: p.TypesInfo, src: src, file: p.Fset.File(f.Pos())}
			if in.file == nil || in.file.Size() != len(src) {
				continue
			}
			text, changed := in.run(f)
			if !changed {
				continue
			}
			tmp := filepath.Join(dir, "inst_"+strings.NewReplacer("/", "_").Replace(strings.TrimPrefix(name, "/")))
			if e := os.WriteFile(tmp, []byte(text), 0o644); e != nil {
				err = e
			}
			out[name] = tmp
		}
	})
	return out, err
}

func (in *inst) off(p token.Pos) int { return in.file.Offset(p) }

func (in *inst) ins(at token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(at), in.off(at), text, len(in.edits)})
}

func (in *inst) rep(from, to token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(from), in.off(to), text, len(in.edits)})
}

// text renders [from,to) with the edits inside it.
func (in *inst) text(from, to token.Pos) string { return in.render(in.off(from), in.off(to)) }

func (in *inst) render(a, b int) string {
	es := append([]edit{}, in.edits...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		// insertions before the replacement at the same place
		return es[i].end < es[j].end
	})
	var sb strings.Builder
	at := a
	for _, e := range es {
		if e.pos < at || e.end > b {
			continue
		}
		sb.Write(in.src[at:e.pos])
		sb.WriteString(e.text)
		at = e.end
	}
	sb.Write(in.src[at:b])
	return sb.String()
}

func (in *inst) visible(c *ast.CallExpr) bool {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		b, ok := in.info.Uses[f].(*types.Builtin)
		return ok && b.Name() == "close"
	case *ast.SelectorExpr:
		if fn, ok := in.info.Uses[f.Sel].(*types.Func); ok {
			return visibleFns[fn.FullName()]
		}
	}
	return false
}

func (in *inst) fullName(e ast.Expr) string {
	if s, ok := ast.Unparen(e).(*ast.SelectorExpr); ok {
		if fn, ok := in.info.Uses[s.Sel].(*types.Func); ok {
			return fn.FullName()
		}
	}
	return ""
}

func (in *inst) isChan(e ast.Expr) bool {
	t := in.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (in *inst) run(f *ast.File) (string, bool) {
	in.walk(f, nil)
	if len(in.edits) == 0 {
		return "", false
	}
	has := false
	usesTime := false
	for _, im := range f.Imports {
		if strings.HasSuffix(im.Path.Value, `/zzsym"`) {
			has = true
		}
		if im.Path.Value == `"time"` && im.Name == nil {
			usesTime = true
		}
	}
	if !has {
		in.ins(f.Name.End(), "\n\nimport zzsym \""+modPath+"/zzsym\"\n")
	}
	t := "//go:build go1.18\n\n" + in.render(0, len(in.src))
	if usesTime {
		t += "\nvar _ = time.Second\n"
	}
	return t, true
}

// walk adds the edits of n's subtree, innermost first where an edit quotes
// the text of its parts.
func (in *inst) walk(n ast.Node, comm ast.Stmt) {
	if n == nil {
		return
	}
	switch x := n.(type) {
	case *ast.SelectStmt:
		in.selectStmt(x)
		return
	case *ast.GoStmt:
		in.goStmt(x)
		return
	case *ast.DeferStmt:
		if in.visible(x.Call) {
			in.ins(x.Call.Pos(), "func() { zzsym.Point(); ")
			in.ins(x.Call.End(), " }()")
			return
		}
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok && in.visible(c) {
			in.ins(x.Pos(), "zzsym.Point(); ")
			if in.fullName(c.Fun) == "time.Sleep" {
				in.rep(c.Fun.Pos(), c.Fun.End(), "zzsym.Sleep")
			}
			for _, a := range c.Args {
				in.walk(a, nil)
			}
			return
		}
	case *ast.CallExpr:
		if in.visible(x) && len(x.Args) > 0 {
			in.ins(x.Args[0].Pos(), "zzsym.P(")
			in.walk(x.Args[0], nil)
			in.ins(x.Args[0].End(), ")")
			for _, a := range x.Args[1:] {
				in.walk(a, nil)
			}
			return
		}
		switch nm := in.fullName(x.Fun); nm {
		case "time.NewTicker", "time.After", "time.NewTimer", "time.Tick":
			in.rep(x.Fun.Pos(), x.Fun.End(), "zzsym."+strings.TrimPrefix(nm, "time."))
			for _, a := range x.Args {
				in.walk(a, nil)
			}
			return
		}
	case *ast.SendStmt:
		in.ins(x.Chan.Pos(), "zzsym.P(")
		in.walk(x.Chan, nil)
		in.ins(x.Chan.End(), ")")
		in.walk(x.Value, nil)
		return
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			in.ins(x.X.Pos(), "zzsym.P(")
			in.walk(x.X, nil)
			in.ins(x.X.End(), ")")
			return
		}
	case *ast.RangeStmt:
		if in.isChan(x.X) {
			in.walk(x.X, nil)
			in.walk(x.Body, nil)
			ch := in.text(x.X.Pos(), x.X.End())
			hd := "for zzch := " + ch + "; ; "
			body := "{ "
			switch {
			case x.Key == nil:
				body += "if _, zzok := <-zzsym.P(zzch); !zzok { break }; "
			case x.Tok == token.DEFINE:
				k := in.text(x.Key.Pos(), x.Key.End())
				body += k + ", zzok := <-zzsym.P(zzch); if !zzok { break }; "
			default:
				k := in.text(x.Key.Pos(), x.Key.End())
				body += "var zzok bool; " + k + ", zzok = <-zzsym.P(zzch); if !zzok { break }; "
			}
			inner := in.text(x.Body.Lbrace+1, x.Body.Rbrace)
			in.drop(x.For, x.Body.Rbrace)
			in.rep(x.For, x.Body.Rbrace, hd+body+inner)
			return
		}
	}
	for _, c := range children(n) {
		in.walk(c, nil)
	}
}

// drop removes the edits inside a range about to be replaced as a whole.
func (in *inst) drop(from, to token.Pos) {
	a, b := in.off(from), in.off(to)
	var keep []edit
	for _, e := range in.edits {
		if e.pos >= a && e.end <= b {
			continue
		}
		keep = append(keep, e)
	}
	in.edits = keep
}

func (in *inst) goStmt(x *ast.GoStmt) {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		in.walk(fl.Body, nil)
		t := in.text(fl.Pos(), fl.End())
		in.drop(x.Pos(), x.End())
		in.rep(x.Pos(), x.End(), "zzsym.Go("+t+")")
		return
	}
	in.walk(c.Fun, nil)
	for _, a := range c.Args {
		in.walk(a, nil)
	}
	names, vals, args := []string{"zzF"}, []string{in.text(c.Fun.Pos(), c.Fun.End())}, []string{}
	for i, a := range c.Args {
		t := in.text(a.Pos(), a.End())
		tv := in.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, t)
			continue
		}
		nm := fmt.Sprintf("zz%d", i)
		names, vals = append(names, nm), append(vals, t)
		args = append(args, nm)
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	in.drop(x.Pos(), x.End())
	in.rep(x.Pos(), x.End(), fmt.Sprintf("zzsym.Go(func() func() { %s := %s; return func() { zzF(%s%s) } }())",
		strings.Join(names, ", "), strings.Join(vals, ", "), strings.Join(args, ", "), dots))
}

func (in *inst) selectStmt(x *ast.SelectStmt) {
	type cl struct{ comm, body string }
	var cls []cl
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		for _, b := range c.Body {
			in.walk(b, nil)
		}
		k := cl{}
		if c.Comm != nil {
			k.comm = string(in.src[in.off(c.Comm.Pos()):in.off(c.Comm.End())])
		}
		end := c.End()
		k.body = in.text(c.Colon+1, end)
		cls = append(cls, k)
	}
	var a, b strings.Builder
	i := 0
	for _, k := range cls {
		if k.comm == "" {
			a.WriteString("case -1:" + k.body + "\n")
			b.WriteString("default:" + k.body + "\n")
			continue
		}
		fmt.Fprintf(&a, "case %d: %s; %s\n", i, k.comm, k.body)
		fmt.Fprintf(&b, "case %s: %s\n", k.comm, k.body)
		i++
	}
	in.drop(x.Pos(), x.End())
	in.rep(x.Pos(), x.End(), "switch zzsym.Sel() {\n"+a.String()+"case -2: select {\n"+b.String()+"}\ndefault: panic(\"zz: select\") }")
}

// children lists the direct child nodes of n.
func children(n ast.Node) (out []ast.Node) {
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			out = append(out, c)
		}
		return false
	})
	return
}
