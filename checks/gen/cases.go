package main

import (
	"fmt"

	"verif.local/vlib/gencase"
)

func col(p string, name, udt string, null bool, pos int) gencase.Column {
	for _, t := range gencase.Types(p) {
		if t.Udt == udt {
			return gencase.Column{Name: name, Type: t.Type, Udt: udt, Null: null, Pos: uint32(pos)}
		}
	}
	panic(udt)
}

// names of the types in the two kinds of databases.
func udt(p, pg, ms string) string {
	if p == "postgres" {
		return pg
	}
	return ms
}

// typeTables have columns of every type under every kind of name.
func typeTables(p string) (l []gencase.Table) {
	s := "dbo"
	if p == "postgres" {
		s = "public"
	}
	sets := [][]string{{"x", "id", "org_id", "UserID", "item_count", "b_ids"}, {"ID", "OrgId", "_private", "type", "createdAt", "UPPER_CASE"}, {"paid", "valid", "ids", "account", "Void", "count"}, {"order-line", "some name", "camelCaseID", "x_", "HTTPServer", "a2b"}}
	for i, t := range gencase.Types(p) {
		for j, names := range sets {
			for _, null := range []bool{false, true} {
				y := gencase.Table{Schema: s, Name: fmt.Sprintf("%s_%d%d_%v", []string{"users", "Address", "status", "data-points"}[j], i, j, null)}
				for n, name := range names {
					y.Columns = append(y.Columns, gencase.Column{Name: name, Type: t.Type, Udt: t.Udt, Null: null, Pos: uint32(n*3 + 1), Max: []uint32{0, 64, 1<<31 - 1}[n%3]})
				}
				if !null {
					y.Indexes = []gencase.Index{{"pk" + y.Name, true, true, names[1:2]}}
				}
				l = append(l, y)
			}
		}
	}
	return l
}

func allCases(thorough bool) (l []*gencase.Case) {
	add := func(k gencase.Case) {
		k.ID = len(l)
		l = append(l, &k)
	}
	providers := []string{"postgres", "sqlserver", "mssql"}
	for _, p := range providers {
		add(gencase.Case{Provider: p, DB: "testdb", Tables: typeTables(p)})
	}
	// many of everything
	for _, p := range providers[:2] {
		def := udt(p, "public", "dbo")
		i8, tx := udt(p, "int8", "bigint"), udt(p, "text", "nvarchar")
		wide := gencase.Case{Provider: p, DB: "testdb", Typesdef: true, UseSchema: true}
		for _, n := range []int{10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300} {
			t := gencase.Table{Schema: def, Name: fmt.Sprintf("wide_%d", n), Cached: n%2 == 0}
			var all []string
			for i := 0; i < n; i++ {
				k := col(p, fmt.Sprintf("c%d_%s", i, []string{"id", "note", "count", "ref_id"}[i%4]), []string{i8, tx, i8, i8}[i%4], i%3 == 1, i+1)
				if i == n-1 {
					k.Field = "Last"
				}
				t.Columns = append(t.Columns, k)
				all = append(all, k.Name)
				if i > 0 && i < 130 {
					t.Indexes = append(t.Indexes, gencase.Index{Name: fmt.Sprintf("ix%d_%d", n, i), Unique: i%2 == 0, Columns: []string{k.Name, all[0]}})
				}
			}
			t.Indexes = append(t.Indexes, gencase.Index{Name: fmt.Sprintf("all_%d", n), Unique: true, Columns: all}, gencase.Index{Name: fmt.Sprintf("pk_%d", n), Primary: true, Unique: true, Columns: all[:1]})
			wide.Tables = append(wide.Tables, t)
		}
		add(wide)
		for _, n := range []int{9, 10, 11, 16, 17, 32, 33, 64, 65, 101, 129} {
			k := gencase.Case{Provider: p, DB: "testdb"}
			for i := 0; i < n; i++ {
				k.Tables = append(k.Tables, gencase.Table{Schema: []string{def, "s1"}[i%2*(n%2)], Name: fmt.Sprintf("table_%d", i), Columns: []gencase.Column{col(p, "id", i8, false, 1), col(p, fmt.Sprint("note", i), tx, true, 2)},
					Indexes: []gencase.Index{{fmt.Sprint("pk", i), true, true, []string{"id"}}}})
			}
			add(k)
		}
		long := gencase.Case{Provider: p, DB: "testdb"}
		for _, n := range []int{20, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128} {
			name := fmt.Sprintf("t%d_%s", n, "abcdefghi_abcdefghi_abcdefghi_abcdefghi_abcdefghi_abcdefghi_abcdefghi_abcdefghi_abcdefghi_abcdefghi_abcdefghi_abcdefghi_abcdefghi")[:n]
			long.Tables = append(long.Tables, gencase.Table{Schema: def, Name: name, Columns: []gencase.Column{col(p, "a"+name+"x", i8, false, 1), col(p, "c"+name, tx, true, 2)},
				Indexes: []gencase.Index{{"pk" + name, true, true, []string{name[1:] + "x"}}}})
		}
		add(long)
	}
	bools := []bool{false, true}
	drops := [][]string{nil, {"b"}, {"id", "note", "none"}}
	for _, p := range providers {
		def := udt(p, "public", "dbo")
		for _, drop := range drops {
			for _, use := range bools {
				for _, suffix := range []string{"", "_row"} {
					for _, defs := range bools {
						if !defs && drop != nil {
							continue
						}
						for where := 0; where < 4; where++ {
							for _, twice := range bools {
								if twice && !thorough && (suffix != "" || where%2 == 0) {
									continue
								}
								k := gencase.Case{Provider: p, DB: []string{"testdb", "my_db"}[where%2], Drop: drop, UseSchema: use, Suffix: suffix, Typesdef: defs, Twice: twice}
								if suffix != "" {
									k.PkgModel, k.PkgSchema = "mymodel", "myschema"
								}
								i8, tx, i4 := udt(p, "int8", "bigint"), udt(p, "text", "nvarchar"), udt(p, "int4", "int")
								first := gencase.Table{Schema: def, Name: "users", Columns: []gencase.Column{
									col(p, "id", i8, false, 1), col(p, "a", tx, true, 2), col(p, "b", i8, false, 4), col(p, "note", tx, false, 7), col(p, "item_count", i4, false, 9),
								}, Indexes: []gencase.Index{{"users_pk", true, true, []string{"id"}}, {"users_ab", false, true, []string{"a", "b"}}, {"users_b", false, false, []string{"b"}}}}
								second := gencase.Table{Schema: def, Name: "org_members", Columns: []gencase.Column{
									col(p, "note", tx, false, 1), col(p, "org_id", i8, false, 2), col(p, "user_id", i8, true, 3), col(p, "b", i4, true, 5),
								}, Indexes: []gencase.Index{{"pk2", true, true, []string{"org_id", "user_id"}}}}
								view := gencase.Table{Schema: def, Name: "vwThings", View: true, Columns: []gencase.Column{col(p, "b", tx, true, 1), col(p, "n", i8, true, 2)}}
								if defs {
									k.Count = "uint32"
									first.Struct, first.Cached = "Person", true
									first.Columns[1].Field = "Alias"
									second.Columns[0].As = "xdb.NULLString"
									second.Cached = true
									view.Columns[1].Field, view.Columns[1].As = "Number", "xdb.Int64"
								}
								switch where {
								case 0:
									k.Tables = []gencase.Table{first}
								case 1:
									k.Tables = []gencase.Table{first, second, view}
								case 2:
									first.Schema, second.Schema = "s1", "s1"
									k.Tables = []gencase.Table{second, first}
								case 3:
									second.Schema = "s2"
									view.Schema = "a3"
									k.Tables = []gencase.Table{first, second, view}
								}
								add(k)
								if twice {
									continue
								}
								// a part of a catalogue
								other := first
								other.Name, other.Struct = "others", ""
								away := first
								away.Schema = "away"
								ov := view
								ov.Name = "others_too"
								k.Others, k.Deps = []gencase.Table{other, away, ov}, !use
								add(k)
								if suffix == "" && drop == nil {
									k.Others = nil
									k.Deps = false
									faults := []string{"tables", "definitions", "model", "schema", "no model", "no schema"}
									if where == 1 || where == 3 {
										faults = append(faults, "views")
									}
									for _, f := range faults {
										k.Fault = f
										add(k)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return l
}
