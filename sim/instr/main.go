// Command instr rewrites the Go files of a package so that the simulator
// decides its interleavings: a yield point before every statement, simulated
// sync, channels, math/rand, clock, go statements and map iteration order. The result
// goes to a directory of its own; an overlay maps the originals to it.
//
//	instr -out DIR -base N -yield Y|YA [-globals PKGNAME] [-overlay] SRC_DIR
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at, end int
	text    string
	seq     int
}

type Site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
}

type meta struct {
	Sites    []Site            `json:"sites"`
	Replace  map[string]string `json:"replace"`
	Unsim    []string          `json:"unsimulated"`
	MapRange int               `json:"map_ranges"`
	GoStmts  int               `json:"go_stmts"`
	Sync     int               `json:"sync_imports"`
	Chan     int               `json:"channel_ops"`
	Next     int               `json:"next"`
}

func fatal(a ...any) { fmt.Fprintln(os.Stderr, a...); os.Exit(2) }

func main() {
	out := flag.String("out", "", "output directory")
	base := flag.Int("base", 100, "first site id")
	yield := flag.String("yield", "Y", "yield function")
	globals := flag.String("globals", "", "register package-level variables under this prefix")
	flag.Parse()
	src := flag.Arg(0)
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal(err)
	}
	ents, err := os.ReadDir(src)
	if err != nil {
		fatal(err)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var srcs [][]byte
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			fatal(err)
		}
		f, err := parser.ParseFile(fset, filepath.Join(src, n), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		skip := false
		for _, cg := range f.Comments {
			if cg.Pos() < f.Package {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:build") && (strings.Contains(c.Text, "antlr.stats") && !strings.Contains(c.Text, "!antlr.stats") || strings.Contains(c.Text, "ignore")) {
						skip = true
					}
				}
			}
		}
		if skip {
			continue
		}
		files, names, srcs = append(files, f), append(names, n), append(srcs, b)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Error: func(error) {}, Importer: noImporter{}, FakeImportC: true}
	conf.Check("p", fset, files, info)

	m := meta{Replace: map[string]string{}, Next: *base}
	var regs []string
	pkg := ""
	for i, f := range files {
		pkg = f.Name.Name
		text := instrument(fset, f, srcs[i], names[i], *yield, info, &m)
		dst := filepath.Join(*out, names[i])
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			fatal(err)
		}
		m.Replace[filepath.Join(src, names[i])] = dst
		if *globals != "" {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, sp := range g.Specs {
					for _, id := range sp.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							regs = append(regs, id.Name)
						}
					}
				}
			}
		}
	}
	if *globals != "" {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport simrt \"verif.local/sim/simrt\"\n\nfunc init() {\n", pkg)
		for _, r := range regs {
			fmt.Fprintf(&b, "\tsimrt.RegGlobal(%q, &%s)\n", *globals+"."+r, r)
		}
		b.WriteString("}\n")
		dst := filepath.Join(*out, "zz_simrt_globals.go")
		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			fatal(err)
		}
		m.Replace[filepath.Join(src, "zz_simrt_globals.go")] = dst
	}
	b, _ := json.Marshal(m)
	if err := os.WriteFile(filepath.Join(*out, "meta.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

type noImporter struct{}

func (noImporter) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func instrument(fset *token.FileSet, f *ast.File, src []byte, name, yield string, info *types.Info, m *meta) string {
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	add := func(at, end int, text string) { edits = append(edits, edit{at, end, text, len(edits)}) }

	imp := map[string]string{} // local name -> path
	timeName := ""
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		local := filepath.Base(path)
		if path == "math/rand/v2" {
			local = "rand"
		}
		if is.Name != nil {
			local = is.Name.Name
		}
		imp[local] = path
		var repl string
		switch path {
		case "sync":
			repl = "verif.local/sim/simsync"
			m.Sync++
		case "math/rand", "math/rand/v2":
			repl = "verif.local/sim/simrand"
		case "time":
			timeName = local
		}
		if repl != "" && local != "_" {
			nm := ""
			if is.Name == nil {
				nm = local + " "
			}
			add(off(is.Path.Pos()), off(is.Path.End()), nm+strconv.Quote(repl))
		}
	}
	add(off(f.Name.End()), off(f.Name.End()), `; import simrt "verif.local/sim/simrt"`)
	add(len(src), len(src), "\nvar _ = simrt.Active\n")

	fn := ""
	site := func(p token.Pos) int {
		id := m.Next
		m.Next++
		pos := fset.Position(p)
		m.Sites = append(m.Sites, Site{ID: id, Pos: fmt.Sprintf("%s:%d", name, pos.Line), Func: fn})
		return id
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("simrt.%s(%d);", yield, site(s.Pos())))
		}
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var visit func(n ast.Node) bool
	two := map[*ast.UnaryExpr]bool{}
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, fmt.Sprintf("simrt.%s(%d);", yield, site(x.Pos())))
			}
		case *ast.SelectStmt:
			m.Chan++
			head, cases := "", ""
			def := false
			for i, cl := range x.Body.List {
				cc := cl.(*ast.CommClause)
				if cc.Comm == nil {
					def = true
					add(off(cc.Case), off(cc.Colon)+1, "default: ")
					continue
				}
				body := ""
				v := fmt.Sprintf("__c%d_%d", off(x.Pos()), i)
				switch c := cc.Comm.(type) {
				case *ast.SendStmt:
					head += fmt.Sprintf(", simrt.SendCase(%s)(%s)", text(c.Chan), text(c.Value))
				case *ast.ExprStmt:
					head += fmt.Sprintf(", simrt.RecvCase(%s)", text(unparen(c.X).(*ast.UnaryExpr).X))
				case *ast.AssignStmt:
					head += fmt.Sprintf(", simrt.RecvCase(%s)", text(unparen(c.Rhs[0]).(*ast.UnaryExpr).X))
					var l []string
					for _, e := range c.Lhs {
						l = append(l, text(e))
					}
					body = fmt.Sprintf("%s %s %s.Val", strings.Join(l, ", "), c.Tok, v)
					if len(l) == 2 {
						body += "2"
					}
					body += "();"
				}
				cases += ", " + v
				add(off(cc.Case), off(cc.Colon)+1, fmt.Sprintf("case %d: %s ", i, body))
			}
			h := "switch "
			if head != "" {
				h += cases[2:] + " := " + head[2:] + "; "
			}
			h += fmt.Sprintf("simrt.Select(%v%s) {", def, cases)
			add(off(x.Select), off(x.Body.Lbrace)+1, h)
			if !def {
				add(off(x.Body.Rbrace), off(x.Body.Rbrace), "default: panic(0); ")
			}
			for _, cl := range x.Body.List {
				list(cl.(*ast.CommClause).Body)
				for _, b := range cl.(*ast.CommClause).Body {
					ast.Inspect(b, visit)
				}
			}
			return false
		case *ast.SendStmt:
			m.Chan++
			add(off(x.Chan.Pos()), off(x.Chan.Pos()), "simrt.SendTo(")
			add(off(x.Arrow), off(x.Arrow)+2, ")(")
			add(off(x.Value.End()), off(x.Value.End()), ")")
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				m.Chan++
				f := "simrt.Recv("
				if two[x] {
					f = "simrt.Recv2("
				}
				add(off(x.OpPos), off(x.OpPos)+2, f)
				add(off(x.End()), off(x.End()), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
				if tv, ok := info.Types[x.Args[0]]; !ok || tv.Type == nil || isChan(tv.Type) {
					add(off(id.Pos()), off(id.End()), "simrt.Close")
				}
			}
		case *ast.GoStmt:
			m.GoStmts++
			if lit, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				add(off(x.Go), off(lit.Pos()), "simrt.Go(")
				add(off(lit.End()), off(x.Call.End()), ")")
				break
			}
			// the function and its arguments are evaluated now
			var names, call []string
			at := off(x.Go)
			keep := func(e ast.Expr, name string) {
				if tv, ok := info.Types[e]; ok && tv.Value != nil {
					call = append(call, text(e))
					return
				}
				switch y := e.(type) {
				case *ast.BasicLit:
					call = append(call, text(e))
					return
				case *ast.Ident:
					if e == x.Call.Fun || y.Name == "nil" || y.Name == "true" || y.Name == "false" {
						call = append(call, text(e))
						return
					}
				}
				if len(names) > 0 {
					add(at, off(e.Pos()), ", ")
				} else {
					add(at, off(e.Pos()), "\x00")
				}
				at = off(e.End())
				names, call = append(names, name), append(call, name)
			}
			start := len(edits)
			keep(x.Call.Fun, "__f")
			for i, a := range x.Call.Args {
				keep(a, fmt.Sprintf("__a%d", i))
			}
			if len(names) > 0 {
				edits[start].text = fmt.Sprintf("{ %s := ", strings.Join(names, ", "))
			} else {
				add(at, at, "{")
			}
			if x.Call.Ellipsis.IsValid() {
				call[len(call)-1] += "..."
			}
			add(at, off(x.Call.End()), fmt.Sprintf("; simrt.Go(func(){ %s(%s) }) }", call[0], strings.Join(call[1:], ", ")))
			for i, e := range append([]ast.Expr{x.Call.Fun}, x.Call.Args...) {
				if strings.HasPrefix(call[i], "__") {
					ast.Inspect(e, visit)
				}
			}
			return false
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && timeName != "" && id.Name == timeName {
				switch x.Sel.Name {
				case "Now", "Since", "Sleep", "Until", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker", "Timer", "Ticker":
					add(off(x.Pos()), off(x.End()), "simrt."+x.Sel.Name)
				}
			}
		case *ast.RangeStmt:
			tv, ok := info.Types[x.X]
			if !ok || tv.Type == nil {
				break
			}
			if isChan(tv.Type) {
				m.Chan++
				c := fmt.Sprintf("__c%d", off(x.Pos()))
				ok := c + "ok"
				head := fmt.Sprintf("for %s := (%s); ; { ", c, text(x.X))
				switch {
				case x.Key == nil:
					head += fmt.Sprintf("_, %s := simrt.Recv2(%s); if !%s { break };", ok, c, ok)
				case x.Tok == token.ASSIGN:
					head += fmt.Sprintf("var %s bool; %s, %s = simrt.Recv2(%s); if !%s { break };", ok, text(x.Key), ok, c, ok)
				default:
					head += fmt.Sprintf("%s, %s := simrt.Recv2(%s); if !%s { break };", text(x.Key), ok, c, ok)
				}
				add(off(x.For), off(x.Body.Lbrace)+1, head)
				ast.Inspect(x.Body, visit)
				return false
			}
			mt, ok := tv.Type.Underlying().(*types.Map)
			if !ok {
				break
			}
			switch mt.Key().Underlying().(type) {
			case *types.Basic:
			default:
				break
			}
			if x.Key == nil {
				break
			}
			m.MapRange++
			e := fmt.Sprintf("__e%d", off(x.Pos()))
			head := fmt.Sprintf("for _, %s := range simrt.MapEntries(%s) {", e, text(x.X))
			body := fmt.Sprintf(" if !%s.Live() { continue }; ", e)
			k, v := text(x.Key), "_"
			if x.Value != nil {
				v = text(x.Value)
			}
			op := ":="
			if x.Tok == token.ASSIGN {
				op = "="
			}
			if k == "_" && v == "_" {
				op = "="
			}
			body += fmt.Sprintf("%s, %s %s %s.K, %s.V();", k, v, op, e, e)
			add(off(x.For), off(x.Body.Lbrace)+1, head+body)
			// what is inside the header must not be edited again
			ast.Inspect(x.Body, visit)
			return false
		}
		return true
	}
	for _, d := range f.Decls {
		fn = ""
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, visit)
	}
	if timeName != "" && timeName != "_" {
		add(len(src), len(src), "\nvar _ "+timeName+".Duration\n")
	}
	sort.SliceStable(edits, func(a, b int) bool {
		if edits[a].at != edits[b].at {
			return edits[a].at < edits[b].at
		}
		return edits[a].seq < edits[b].seq
	})
	var b strings.Builder
	at := 0
	for _, e := range edits {
		if e.at < at {
			fatal("overlapping edits in", name, "at", e.at)
		}
		b.Write(src[at:e.at])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	return b.String()
}
