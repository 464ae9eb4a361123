// Command instr rewrites a Go package so that its goroutines, locks, atomics, pools, channels and
// sleeps go through the controlled scheduler. It edits text at positions found in the syntax tree,
// so line numbers stay as they are.
//
//	instr -mode sync|func|stmt -out DIR PKGDIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int
	text     string
	seq      int
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
}

var (
	fset = token.NewFileSet()
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
)

func main() {
	mode := flag.String("mode", "sync", "")
	out := flag.String("out", "", "")
	only := flag.String("files", "", "comma separated files that get points (others: primitives only)")
	flag.Parse()
	dir := flag.Arg(0)

	// files of the package for this build, and export data of its imports
	exports := map[string]string{}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Export,GoFiles,Dir,ImportMap", ".")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	var names []string
	if err == nil {
		dec := json.NewDecoder(bytes.NewReader(b))
		for {
			var p struct {
				ImportPath, Export, Dir string
				GoFiles                 []string
			}
			if err := dec.Decode(&p); err == io.EOF {
				break
			} else if err != nil {
				fail(err)
			}
			exports[p.ImportPath] = p.Export
			if p.Dir == dir {
				names = p.GoFiles
			}
		}
	}
	if len(names) == 0 {
		ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, m := range ms {
			if !strings.HasSuffix(m, "_test.go") {
				names = append(names, filepath.Base(m))
			}
		}
	}
	var files []*file
	var asts []*ast.File
	for _, n := range names {
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			fail(err)
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fail(err)
		}
		files = append(files, &file{name: n, src: src, ast: f})
		asts = append(asts, f)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	_, _ = conf.Check("p", fset, asts, info)

	pts := map[string]bool{}
	for _, f := range strings.Split(*only, ",") {
		if f != "" {
			pts[f] = true
		}
	}
	for _, f := range files {
		m := *mode
		if len(pts) > 0 && !pts[f.name] {
			m = "sync"
		}
		f.rewrite(m)
		if err := os.WriteFile(filepath.Join(*out, f.name), f.apply(), 0o644); err != nil {
			fail(err)
		}
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

func off(p token.Pos) int { return fset.Position(p).Offset }

func (f *file) repl(a, b token.Pos, t string) {
	f.edits = append(f.edits, edit{off(a), off(b), t, len(f.edits)})
}

func (f *file) ins(a token.Pos, t string) { f.repl(a, a, t) }

func (f *file) insOff(o int, t string) {
	f.edits = append(f.edits, edit{o, o, t, len(f.edits)})
}

func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].pos != f.edits[j].pos {
			return f.edits[i].pos < f.edits[j].pos
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range f.edits {
		if e.pos < at {
			fail(fmt.Errorf("%s: overlapping edits at %d", f.name, e.pos))
		}
		out.Write(f.src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(f.src[at:])
	return out.Bytes()
}

func isChan(e ast.Expr) bool {
	t := info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// timeNames are the names of package time that are replaced, and by what.
var timeNames = map[string]string{
	"Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc", "Tick": "NewTick",
	"NewTicker": "NewTicker", "Ticker": "Ticker", "NewTimer": "NewTimer", "Timer": "Timer",
}

func (f *file) text(n ast.Node) string { return string(f.src[off(n.Pos()):off(n.End())]) }

// timed is the text with the functions of package time replaced.
func (f *file) timed(n ast.Node, timeName string) string {
	t := f.text(n)
	if timeName != "" {
		for from, to := range timeNames {
			t = strings.ReplaceAll(t, timeName+"."+from+"(", "vsched__."+to+"(")
		}
	}
	return t
}

func (f *file) rewrite(mode string) {
	timeName := ""
	timeUsed, timeReplaced := 0, 0
	for _, im := range f.ast.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		switch path {
		case "sync":
			if name == "" {
				name = "sync"
			}
			f.repl(im.Pos(), im.Path.End(), name+` "verif.local/vlib/vsync"`)
		case "sync/atomic":
			if name == "" {
				name = "atomic"
			}
			f.repl(im.Pos(), im.Path.End(), name+` "verif.local/vlib/vatomic"`)
		case "time":
			timeName = "time"
			if name != "" {
				timeName = name
			}
		}
	}
	f.insOff(off(f.ast.Name.End()), `; import vsched__ "verif.local/vlib/vsched"`)

	recv2 := map[*ast.UnaryExpr]bool{}
	skip := map[ast.Node]bool{} // receive expressions and sends handled by their select
	seenLit := map[*ast.BlockStmt]bool{}

	points := func(list []ast.Stmt) {
		if mode != "stmt" {
			return
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.BranchStmt, *ast.LabeledStmt:
				continue
			}
			f.ins(s.Pos(), "vsched__.Point(); ")
		}
	}
	body := func(b *ast.BlockStmt) {
		if b == nil || seenLit[b] {
			return
		}
		seenLit[b] = true
		if mode == "func" {
			f.insOff(off(b.Lbrace)+1, " vsched__.Point(); ")
		}
	}

	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			body(x.Body)
		case *ast.FuncLit:
			body(x.Body)
		case *ast.BlockStmt:
			points(x.List)
		case *ast.CaseClause:
			points(x.Body)
		case *ast.CommClause:
			points(x.Body)
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && timeName != "" && id.Name == timeName {
				if o := info.Uses[id]; o != nil {
					if _, ok := o.(*types.PkgName); !ok {
						return true
					}
				}
				timeUsed++
				if to := timeNames[x.Sel.Name]; to != "" {
					timeReplaced++
					f.repl(id.Pos(), x.Sel.End(), "vsched__."+to)
				}
			}
		case *ast.GoStmt:
			c := x.Call
			if len(c.Args) == 0 {
				f.repl(x.Pos(), c.Pos(), "vsched__.Go(")
				// drop the call parentheses: the function value itself is passed
				f.repl(c.Lparen, c.End(), ")")
			} else {
				// evaluate the arguments now, call later
				var names []string
				f.repl(x.Pos(), c.Pos(), "func() { vf__ := ")
				f.repl(c.Lparen, c.Lparen+1, "")
				at := c.Lparen + 1
				for i, a := range c.Args {
					nm := fmt.Sprintf("va%d__", i)
					names = append(names, nm)
					f.repl(at, a.Pos(), "; "+nm+" := ")
					at = a.End()
				}
				dots := ""
				if c.Ellipsis.IsValid() {
					dots = "..."
				}
				f.repl(at, c.End(), "; vsched__.Go(func() { vf__("+strings.Join(names, ", ")+dots+") }) }()")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					recv2[u] = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !skip[x] {
				fn := "Recv"
				if recv2[x] {
					fn = "Recv2"
				}
				f.repl(x.Pos(), x.X.Pos(), "vsched__."+fn+"(")
				f.ins(x.End(), ")")
			}
		case *ast.SendStmt:
			if !skip[x] {
				f.ins(x.Pos(), "vsched__.Send(")
				f.repl(x.Arrow, x.Arrow+2, ",")
				f.ins(x.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 && isChan(x.Args[0]) {
				f.repl(id.Pos(), id.End(), "vsched__.Close")
			}
		case *ast.RangeStmt:
			if isChan(x.X) {
				f.ins(x.X.Pos(), "vsched__.Range(")
				f.ins(x.X.End(), ")")
			}
		case *ast.SelectStmt:
			hasDef := false
			var cases []string
			idx := 0
			var last *ast.CommClause
			for _, s := range x.Body.List {
				if cc := s.(*ast.CommClause); cc.Comm == nil {
					hasDef = true
				} else {
					last = cc
				}
			}
			for _, s := range x.Body.List {
				cc := s.(*ast.CommClause)
				if cc.Comm == nil {
					f.repl(cc.Pos(), cc.Colon, "default")
					continue
				}
				var u *ast.UnaryExpr
				assign := ""
				switch cm := cc.Comm.(type) {
				case *ast.SendStmt:
					skip[cm] = true
					cases = append(cases, fmt.Sprintf("vsched__.SendCase(%s, %s)", f.text(cm.Chan), f.text(cm.Value)))
				case *ast.ExprStmt:
					u = unparen(cm.X).(*ast.UnaryExpr)
				case *ast.AssignStmt:
					u = unparen(cm.Rhs[0]).(*ast.UnaryExpr)
					l := f.text(cm.Lhs[0])
					fn := "Val"
					if len(cm.Lhs) == 2 {
						l += ", " + f.text(cm.Lhs[1])
						fn = "Val2"
					}
					assign = fmt.Sprintf(" %s %s vsched__.%s(%s);", l, cm.Tok, fn, f.text(u.X))
				}
				if u != nil {
					skip[u] = true
					cases = append(cases, fmt.Sprintf("vsched__.RecvCase(%s)", f.timed(u.X, timeName)))
				}
				label := fmt.Sprintf("case %d", idx)
				if !hasDef && cc == last {
					label = "default" // a select without default always ends in one of its cases
				}
				f.repl(cc.Pos(), cc.Colon+1, label+":"+assign)
				idx++
				// nothing inside the communication itself is edited
				ast.Inspect(cc.Comm, func(m ast.Node) bool {
					if m != nil {
						skip[m] = true
					}
					return true
				})
			}
			f.repl(x.Select, x.Select+6, fmt.Sprintf("switch vsched__.Select(%v, %s)", hasDef, strings.Join(cases, ", ")))
		}
		if skip[n] {
			switch n.(type) {
			case *ast.UnaryExpr, *ast.SendStmt, *ast.AssignStmt, *ast.ExprStmt:
				return false
			}
		}
		return true
	})
	tail := "\nvar _ = vsched__.Point\n"
	if timeName != "" && timeReplaced > 0 && timeName != "_" {
		tail += "var _ " + timeName + ".Duration\n"
	}
	f.insOff(len(f.src), tail)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
