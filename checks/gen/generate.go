package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif.local/vlib/gencase"
	"verif.local/vlib/mc"

	"github.com/effective-security/xdb/internal/cli"
	clischema "github.com/effective-security/xdb/internal/cli/schema"
	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"
)

// fixed is a provider of a schema that is known.
type fixed struct {
	name     string
	tables   schema.Tables
	views    schema.Tables
	keys     schema.ForeignKeys
	err      error
	viewsErr error
	deps     bool
}

func (f *fixed) Name() string { return f.name }

func filter(l schema.Tables, schemas, names []string) (r schema.Tables) {
	for _, t := range l {
		if (len(schemas) == 0 || slices.Contains(schemas, t.Schema)) && (len(names) == 0 || slices.Contains(names, t.Name)) {
			r = append(r, t)
		}
	}
	return r
}

func (f *fixed) ListTables(_ context.Context, schemas, tables []string, deps bool) (schema.Tables, error) {
	if deps != f.deps {
		return nil, fmt.Errorf("dependencies: %v", deps)
	}
	if f.err != nil {
		return nil, f.err
	}
	return filter(f.tables, schemas, tables), nil
}

func (f *fixed) ListViews(_ context.Context, schemas, views []string) (schema.Tables, error) {
	if f.viewsErr != nil {
		return nil, f.viewsErr
	}
	return filter(f.views, schemas, views), nil
}

func (f *fixed) ListForeignKeys(context.Context, []string, []string) (schema.ForeignKeys, error) {
	return f.keys, f.err
}

func table(t *gencase.Table) *schema.Table {
	x := &schema.Table{Schema: t.Schema, Name: t.Name, Type: "BASE TABLE", IsView: t.View, SchemaName: t.Schema + "." + t.Name}
	for _, c := range t.Columns {
		x.Columns = append(x.Columns, &schema.Column{Name: c.Name, Type: c.Type, UdtType: c.Udt, Nullable: c.Null, MaxLength: c.Max, Position: c.Pos, SchemaName: x.SchemaName + "." + c.Name})
	}
	for _, i := range t.Indexes {
		ix := &schema.Index{Name: i.Name, IsPrimary: i.Primary, IsUnique: i.Unique, ColumnNames: i.Columns, SchemaName: x.SchemaName + "." + i.Name}
		x.Indexes = append(x.Indexes, ix)
		for _, c := range x.Columns {
			for _, n := range i.Columns {
				if c.Name == n {
					c.Indexes = append(c.Indexes, ix)
				}
			}
		}
	}
	if p := t.Primary(); p >= 0 {
		x.PrimaryKey = x.Columns[p]
	}
	return x
}

func provider(k *gencase.Case) *fixed {
	f := &fixed{name: k.Provider, deps: k.Deps}
	all := append(append([]gencase.Table{}, k.Tables...), k.Others...)
	for i := range all {
		if t := table(&all[i]); t.IsView {
			f.views = append(f.views, t)
		} else {
			f.tables = append(f.tables, t)
		}
	}
	return f
}

// generateOne runs the generator in a process of its own, as the tool does.
func generateOne(file, dir string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	k := &gencase.Case{}
	if err = json.Unmarshal(b, k); err != nil {
		panic(err)
	}
	cmd := clischema.GenerateCmd{DB: k.DB, OutModel: filepath.Join(dir, "model"), OutSchema: filepath.Join(dir, "schema"), PkgModel: k.PkgModel, PkgSchema: k.PkgSchema,
		StructSuffix: k.Suffix, UseSchema: k.UseSchema}
	for _, t := range k.Tables {
		if t.View {
			cmd.View = append(cmd.View, t.Name)
		} else if len(k.Others) > 0 {
			cmd.Table = append(cmd.Table, t.Name)
		}
		if len(k.Others) > 0 {
			cmd.Schema = append(cmd.Schema, t.Schema)
		}
	}
	cmd.Dependencies = k.Deps
	if k.Typesdef {
		tables, fields, types, cached := map[string]string{}, map[string]string{}, map[string]string{}, []string{}
		if k.Count != "" {
			types["_count"] = k.Count
		}
		for _, t := range k.Tables {
			if t.Struct != "" {
				tables[t.Schema+"."+t.Name] = t.Struct
			}
			if t.Cached {
				cached = append(cached, t.Schema+"."+t.Name)
			}
			for _, c := range t.Columns {
				if c.Field != "" {
					fields[t.Schema+"."+t.Name+"."+c.Name] = c.Field
				}
				if c.As != "" {
					types[t.Schema+"."+t.Name+"."+c.Name] = c.As
				}
			}
		}
		b, err = yaml.Marshal(map[string]any{"tables": tables, "fields": fields, "types": types, "with_cached_props": cached, "drop_columns": k.Drop})
		if err != nil {
			panic(err)
		}
		cmd.TypesDef = filepath.Join(dir, "types.yaml")
		if err = os.WriteFile(cmd.TypesDef, b, 0o600); err != nil {
			panic(err)
		}
	}
	p := provider(k)
	switch k.Fault {
	case "tables":
		p.err = errors.New("the database is away")
	case "views":
		p.viewsErr = errors.New("the database is away")
	case "definitions":
		cmd.TypesDef = filepath.Join(dir, "none.yaml")
	case "model", "schema":
		// a disk that is full
		if err = os.MkdirAll(filepath.Join(dir, k.Fault), 0o700); err != nil {
			panic(err)
		}
		for _, n := range []string{k.Fault + ".gen.go", k.Tables[len(k.Tables)-1].Schema + "_" + k.Fault + ".gen.go"} {
			if err = os.Symlink("/dev/full", filepath.Join(dir, k.Fault, n)); err != nil {
				panic(err)
			}
		}
	case "no model", "no schema":
		// a file in the place of the folder
		if err = os.WriteFile(filepath.Join(dir, k.Fault[3:]), nil, 0o600); err != nil {
			panic(err)
		}
	}
	var w bytes.Buffer
	ctl := (&cli.Cli{}).WithSchemaProvider(p).WithWriter(&w)
	if err = cmd.Run(ctl); err != nil {
		fmt.Fprint(os.Stderr, err)
		os.Exit(3)
	}
	if w.Len() > 0 {
		fmt.Fprint(os.Stderr, "written to the terminal: "+w.String())
		os.Exit(4)
	}
	// the same without folders goes to the terminal
	if cmd.PkgModel == "" {
		cmd.PkgModel, cmd.PkgSchema = "model", "schema"
	}
	size := 0
	for _, d := range []string{cmd.OutModel, cmd.OutSchema} {
		es, err := os.ReadDir(d)
		if err != nil {
			panic(err)
		}
		for _, e := range es {
			b, err := os.ReadFile(filepath.Join(d, e.Name()))
			if err != nil {
				panic(err)
			}
			size += len(b)
		}
	}
	cmd.OutModel, cmd.OutSchema = "", ""
	if err = cmd.Run(ctl); err != nil {
		fmt.Fprint(os.Stderr, "to the terminal: ", err)
		os.Exit(4)
	}
	if w.Len() != size && !k.Twice {
		fmt.Fprintf(os.Stderr, "%d bytes are written to the terminal and %d to files", w.Len(), size)
		os.Exit(4)
	}
	for n := 0; n < 2; n++ {
		ctl = (&cli.Cli{}).WithSchemaProvider(p).WithWriter(&full{left: n})
		if err = cmd.Run(ctl); err == nil {
			fmt.Fprintf(os.Stderr, "a terminal that fails in write %d is not reported", n)
			os.Exit(4)
		}
	}
}

// full takes some writes and fails the others.
type full struct {
	left   int
	failed bool
}

func (f *full) Write(b []byte) (int, error) {
	if f.left == 0 {
		f.failed = true
		return 0, errors.New("no space")
	}
	f.left--
	return len(b), nil
}

const genDir = "internal/zzverif/g01gen"

var known = map[string]string{
	"xsql": "github.com/effective-security/xdb/xsql", "xdb": "github.com/effective-security/xdb", "xdbschema": "github.com/effective-security/xdb/schema",
	"values": "github.com/effective-security/x/values", "errors": "github.com/cockroachdb/errors", "pq": "github.com/lib/pq",
}

// imports does what goimports does to the generated files, which they are meant to be given to.
func imports(src []byte, more map[string]string) ([]byte, *ast.File, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Obj == nil {
				used[x.Name] = true
			}
		}
		return true
	})
	have := map[string]bool{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, s := range g.Specs {
			i := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(i.Path.Value)
			n := path.Base(p)
			if i.Name != nil {
				n = i.Name.Name
			}
			if used[n] && !have[n] {
				have[n] = true
				keep = append(keep, s)
			}
		}
		var add []string
		for n := range used {
			add = append(add, n)
		}
		sort.Strings(add)
		for _, n := range add {
			p := more[n]
			if p == "" {
				p = known[n]
			}
			if !have[n] && p != "" {
				have[n] = true
				keep = append(keep, &ast.ImportSpec{Name: ast.NewIdent(n), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
			}
		}
		g.Specs = keep
		if len(keep) > 1 && !g.Lparen.IsValid() {
			g.Lparen = g.Pos()
		}
		break
	}
	f.Comments = nil
	var out bytes.Buffer
	err = printer.Fprint(&out, fs, f)
	return out.Bytes(), f, err
}

// outcome of a case.
type outcome struct {
	err   string // of the generator
	again string // what differs in a second run
	key   string
	what  string
	found []struct{ Key, What string }
	files map[string]string
}

func runCases(cases []*gencase.Case) []*outcome {
	scratch := filepath.Join(os.Getenv("VERIF_SCRATCH"), "gen")
	repo := os.Getenv("VERIF_REPO")
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	res := make([]*outcome, len(cases))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	generate := func(k *gencase.Case, dir string) string {
		if err := os.MkdirAll(dir, 0o700); err != nil {
			panic(err)
		}
		f := filepath.Join(dir, "case.json")
		b, _ := json.Marshal(k)
		if err := os.WriteFile(f, b, 0o600); err != nil {
			panic(err)
		}
		out, err := exec.Command(self, "generate", f, dir).CombinedOutput()
		if err != nil {
			return fmt.Sprintf("%v: %.1500s", err, out)
		}
		return ""
	}
	read := func(dir string) map[string]string {
		m := map[string]string{}
		for _, s := range []string{"model", "schema"} {
			es, _ := os.ReadDir(filepath.Join(dir, s))
			for _, e := range es {
				b, err := os.ReadFile(filepath.Join(dir, s, e.Name()))
				if err != nil {
					panic(err)
				}
				m[s+"/"+e.Name()] = string(b)
			}
		}
		return m
	}
	for i, k := range cases {
		i, k := i, k
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			o := &outcome{}
			res[i] = o
			dir := filepath.Join(scratch, fmt.Sprintf("c%d", k.ID))
			if k.Twice {
				more := *k
				more.Tables = append(append([]gencase.Table{}, k.Tables...), gencase.Table{Schema: k.Tables[0].Schema, Name: "gone", Columns: k.Tables[0].Columns})
				if o.err = generate(&more, dir); o.err != "" {
					return
				}
			}
			if o.err = generate(k, dir); o.err != "" || k.Fault != "" {
				return
			}
			o.files = read(dir)
			again := filepath.Join(scratch, fmt.Sprintf("a%d", k.ID))
			if e := generate(k, again); e != "" {
				o.again = e
				return
			}
			second := read(again)
			for n, t := range o.files {
				if second[n] != t {
					o.again = "another " + n
				}
			}
			if len(second) != len(o.files) {
				o.again = "other files"
			}
		}()
	}
	wg.Wait()
	// everything that was generated is compiled with the program that judges it
	overlay := map[string]string{}
	main := &bytes.Buffer{}
	write := func(name string, b []byte) {
		at := filepath.Join(scratch, "src", name)
		if err := os.MkdirAll(filepath.Dir(at), 0o700); err != nil {
			panic(err)
		}
		if err := os.WriteFile(at, b, 0o600); err != nil {
			panic(err)
		}
		overlay[filepath.Join(repo, genDir, name)] = at
	}
	entry := make([]string, len(cases))
	for i, k := range cases {
		o := res[i]
		if o.err != "" || k.Fault != "" {
			continue
		}
		base := fmt.Sprintf("c%d/", k.ID)
		e := fmt.Sprintf("\t%d: {model: map[string]any{\n", k.ID)
		var names []string
		for n := range o.files {
			names = append(names, n)
		}
		sort.Strings(names)
		var m, s string
		seen := map[string]bool{}
		for _, n := range names {
			pkg := "schema"
			if k.PkgSchema != "" {
				pkg = k.PkgSchema
			}
			b, f, err := imports([]byte(o.files[n]), map[string]string{pkg: "github.com/effective-security/xdb/" + genDir + "/" + base + "schema"})
			if err != nil {
				o.key, o.what = "does not parse", err.Error()
				break
			}
			write(base+n, b)
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, sp := range g.Specs {
					switch sp := sp.(type) {
					case *ast.TypeSpec:
						if x := path.Dir(n) + sp.Name.Name; strings.HasPrefix(n, "model/") && !seen[x] {
							seen[x] = true
							m += fmt.Sprintf("\t\t%q: new(m%d.%s),\n", sp.Name.Name, k.ID, sp.Name.Name)
						}
					case *ast.ValueSpec:
						for _, id := range sp.Names {
							if x := path.Dir(n) + id.Name; !seen[x] {
								seen[x] = true
								if strings.HasPrefix(n, "model/") {
									m += fmt.Sprintf("\t\t%q: &m%d.%s,\n", id.Name, k.ID, id.Name)
								} else {
									s += fmt.Sprintf("\t\t%q: &s%d.%s,\n", id.Name, k.ID, id.Name)
								}
							}
						}
					}
				}
			}
		}
		if o.key == "" {
			entry[i] = e + m + "\t}, schema: map[string]any{\n" + s + "\t}},\n"
		}
	}
	checker, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_HOME"), "checks/gen/checker/checker.go.txt"))
	if err != nil {
		panic(err)
	}
	write("checker/checker.go", checker)
	bin := filepath.Join(scratch, "checker")
	broken := regexp.MustCompile(regexp.QuoteMeta(genDir) + `/c(\d+)[/:\s]|/src/c(\d+)/`)
	for try := 0; ; try++ {
		main.Reset()
		main.WriteString("package main\n\nimport (\n")
		n := 0
		for i, k := range cases {
			if entry[i] != "" {
				n++
				fmt.Fprintf(main, "\tm%d \"github.com/effective-security/xdb/%s/c%d/model\"\n\ts%d \"github.com/effective-security/xdb/%s/c%d/schema\"\n", k.ID, genDir, k.ID, k.ID, genDir, k.ID)
			}
		}
		main.WriteString(")\n\nvar registry = map[int]reg{\n")
		for i := range cases {
			main.WriteString(entry[i])
		}
		main.WriteString("}\n")
		write("checker/registry.go", main.Bytes())
		ov := filepath.Join(scratch, "overlay.json")
		b, _ := json.Marshal(map[string]any{"Replace": overlay})
		if err := os.WriteFile(ov, b, 0o600); err != nil {
			panic(err)
		}
		cmd := exec.Command("go", "build", "-modfile", filepath.Join(os.Getenv("VERIF_SCRATCH"), "go.mod"), "-overlay", ov, "-o", bin, "./"+genDir+"/checker")
		cmd.Dir = repo
		out, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		bad := map[int]string{}
		for _, l := range strings.Split(string(out), "\n") {
			if s := broken.FindStringSubmatch(l); s != nil {
				id, _ := strconv.Atoi(s[1] + s[2])
				bad[id] += l + "\n"
			}
		}
		if len(bad) == 0 || try > 20 {
			fmt.Fprintf(os.Stderr, "HARD ERROR: cannot build the program that judges: %v\n%.6000s\n", err, out)
			os.Exit(2)
		}
		for i, k := range cases {
			if bad[k.ID] != "" && entry[i] != "" {
				entry[i] = ""
				res[i].key, res[i].what = "does not compile", bad[k.ID]
			}
		}
	}
	in, outf := filepath.Join(scratch, "cases.json"), filepath.Join(scratch, "found.json")
	b, _ := json.Marshal(cases)
	if err := os.WriteFile(in, b, 0o600); err != nil {
		panic(err)
	}
	if out, err := exec.Command(bin, in, outf).CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "HARD ERROR: the program that judges: %v\n%.6000s\n", err, out)
		os.Exit(2)
	}
	b, err = os.ReadFile(outf)
	if err != nil {
		panic(err)
	}
	found := map[int][]struct{ Key, What string }{}
	if err = json.Unmarshal(b, &found); err != nil {
		panic(err)
	}
	for i, k := range cases {
		if entry[i] != "" {
			f, ok := found[k.ID]
			if !ok {
				panic("a case was not judged")
			}
			res[i].found = f
		}
	}
	return res
}

func g01(r *mc.Run) {
	r.Rule("every configuration of the generator, on tables with every type of column under every kind of name: what it writes is compiled and used: rows of a database that hold every listed value of each column, and nothing where they may, are read with the generated code; the descriptions are compared with the catalogue")
	cases := allCases(r.Thorough())
	res := runCases(cases)
	r.Extra("packages compiled", 2*len(cases))
	r.Explore(mc.Opt{Part: "generated code"}, func(c *mc.C) {
		i := c.Pick(len(cases))
		k, o := cases[i], res[i]
		c.Log("%v", k)
		c.Step()
		switch {
		case k.Fault != "":
			if !strings.HasPrefix(o.err, "exit status 3: ") {
				c.Fail("not reported", "%s: %s", k.Fault, o.err)
			}
			return
		case o.err != "":
			c.Fail("generator failed", "%s", o.err)
		case o.key != "":
			c.Fail(o.key, "%.1500s", o.what)
		}
		if o.again != "" {
			c.Fail("not the same when generated again", "%s", o.again)
		}
		for _, f := range o.found {
			c.Fail(f.Key, "%s", f.What)
		}
		c.Run().State(k.String())
		for _, n := range o.files {
			c.Run().Outcome(n)
		}
	})
}
