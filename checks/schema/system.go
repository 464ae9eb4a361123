package main

import (
	"fmt"
	"strings"

	"verif.local/vlib/fakedb"
)

// The system tables of a catalogue, as PostgreSQL and SQL Server have them.

type builder struct {
	t map[string]*sysTable
}

func (b *builder) table(name, cols string) {
	b.t[name] = &sysTable{cols: strings.Fields(cols)}
}

func (b *builder) row(name string, v ...any) {
	t := b.t[name]
	if len(v) != len(t.cols) {
		panic(fmt.Sprintf("%s has %d columns, not %d", name, len(t.cols), len(v)))
	}
	for i, x := range v {
		if n, ok := x.(int); ok {
			v[i] = int64(n)
		}
	}
	t.rows = append(t.rows, v)
}

// constraint is a foreign key with all of its columns.
type constraint struct {
	name, schema, table, rschema, rtable string
	columns, rcolumns                    []string
}

// constraints puts the rows of one key together.
func (k *catalogue) constraints() (l []constraint) {
	for _, f := range k.keys {
		n := len(l) - 1
		if n >= 0 && l[n].name == f.name && l[n].schema == f.schema && l[n].table == f.table && l[n].rschema == f.rschema && l[n].rtable == f.rtable {
			l[n].columns, l[n].rcolumns = append(l[n].columns, f.column), append(l[n].rcolumns, f.rcolumn)
			continue
		}
		l = append(l, constraint{f.name, f.schema, f.table, f.rschema, f.rtable, []string{f.column}, []string{f.rcolumn}})
	}
	return l
}

func (k *catalogue) schemas(more ...string) (l []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	for _, s := range more {
		add(s)
	}
	for _, t := range append(append([]table{}, k.tables...), k.views...) {
		add(t.schema)
	}
	return l
}

func attnum(t *table, c string) int {
	for i, x := range t.columns {
		if x.name == c {
			return i + 1
		}
	}
	return 0
}

// of the system
var (
	pgSystem = []table{
		{schema: "pg_catalog", name: "pg_class", typ: "BASE TABLE", columns: []column{col("oid", 1)}, indexes: []index{{"pg_class_oid_index", true, true, []string{"oid"}}}},
		{schema: "information_schema", name: "sql_features", typ: "BASE TABLE", columns: []column{col("feature_id", 1)}},
	}
	pgSystemViews = []table{
		{schema: "pg_catalog", name: "pg_views", columns: []column{col("viewname", 1)}},
		{schema: "information_schema", name: "tables", columns: []column{col("table_name", 1)}},
	}
)

func (k *catalogue) postgres() *evaluation {
	b := &builder{map[string]*sysTable{}}
	b.table("information_schema.tables", "table_catalog table_schema table_name table_type")
	b.table("information_schema.views", "table_catalog table_schema table_name")
	b.table("information_schema.columns", "table_catalog table_schema table_name column_name data_type udt_schema udt_name is_nullable character_maximum_length ordinal_position")
	b.table("information_schema.table_constraints", "constraint_catalog constraint_schema constraint_name table_catalog table_schema table_name constraint_type")
	b.table("information_schema.key_column_usage", "constraint_catalog constraint_schema constraint_name table_catalog table_schema table_name column_name ordinal_position position_in_unique_constraint")
	b.table("information_schema.constraint_column_usage", "table_catalog table_schema table_name column_name constraint_catalog constraint_schema constraint_name")
	b.table("pg_namespace", "oid nspname")
	b.table("pg_class", "oid relname relnamespace relkind")
	b.table("pg_attribute", "attrelid attname attnum attisdropped")
	b.table("pg_index", "indexrelid indrelid indisprimary indisunique indkey indnatts indnkeyatts indisvalid")
	b.table("pg_indexes", "schemaname tablename indexname")
	b.table("pg_tables", "schemaname tablename")
	b.table("pg_views", "schemaname viewname")
	b.table("pg_constraint", "oid conname connamespace contype conrelid confrelid conindid conkey confkey")
	oid := 100
	next := func() int { oid++; return oid }
	spaces := map[string]int{}
	for _, s := range k.schemas("pg_catalog", "information_schema") {
		spaces[s] = next()
		b.row("pg_namespace", spaces[s], s)
	}
	rels := map[[2]string]int{}
	const db = "db"
	relation := func(t *table, kind, typ string) {
		id := next()
		rels[[2]string{t.schema, t.name}] = id
		b.row("pg_class", id, t.name, spaces[t.schema], kind)
		b.row("information_schema.tables", db, t.schema, t.name, typ)
		if kind == "v" {
			b.row("information_schema.views", db, t.schema, t.name)
			b.row("pg_views", t.schema, t.name)
		} else {
			b.row("pg_tables", t.schema, t.name)
			b.row("pg_attribute", id, "ctid", -1, false)
			b.row("pg_attribute", id, "tableoid", -6, false)
		}
		for i, c := range t.columns {
			b.row("pg_attribute", id, c.name, i+1, false)
			b.row("information_schema.columns", db, t.schema, t.name, c.name, c.typ, "pg_catalog", c.udt, c.null, c.max, c.pos)
		}
		for _, x := range t.indexes {
			xid := next()
			b.row("pg_class", xid, x.name, spaces[t.schema], "i")
			b.row("pg_indexes", t.schema, t.name, x.name)
			var key []any
			for i, c := range x.columns {
				key = append(key, int64(attnum(t, c)))
				b.row("pg_attribute", xid, c, i+1, false)
			}
			b.row("pg_index", xid, id, x.primary, x.uni, key, len(key), len(key), true)
			if x.primary {
				b.row("pg_constraint", next(), x.name, spaces[t.schema], "p", id, 0, xid, key, nil)
				b.row("information_schema.table_constraints", db, t.schema, x.name, db, t.schema, t.name, "PRIMARY KEY")
				for i, c := range x.columns {
					b.row("information_schema.key_column_usage", db, t.schema, x.name, db, t.schema, t.name, c, i+1, nil)
					b.row("information_schema.constraint_column_usage", db, t.schema, t.name, c, db, t.schema, x.name)
				}
			}
		}
	}
	for i := range pgSystem {
		relation(&pgSystem[i], "r", pgSystem[i].typ)
	}
	for i := range pgSystemViews {
		relation(&pgSystemViews[i], "v", "VIEW")
	}
	for i := range k.tables {
		t := &k.tables[i]
		kind, typ := "r", t.typ
		if t.parts {
			kind = "p"
		}
		if typ == "FOREIGN" {
			kind = "f"
		}
		relation(t, kind, typ)
	}
	for i := range k.views {
		relation(&k.views[i], "v", "VIEW")
	}
	for _, f := range k.constraints() {
		from, to := k.find(f.schema, f.table), k.find(f.rschema, f.rtable)
		var key, rkey []any
		b.row("information_schema.table_constraints", db, f.schema, f.name, db, f.schema, f.table, "FOREIGN KEY")
		for i := range f.columns {
			key, rkey = append(key, int64(attnum(from, f.columns[i]))), append(rkey, int64(attnum(to, f.rcolumns[i])))
			b.row("information_schema.key_column_usage", db, f.schema, f.name, db, f.schema, f.table, f.columns[i], i+1, i+1)
			b.row("information_schema.constraint_column_usage", db, f.rschema, f.rtable, f.rcolumns[i], db, f.schema, f.name)
		}
		b.row("pg_constraint", next(), f.name, spaces[f.schema], "f", rels[[2]string{f.schema, f.table}], rels[[2]string{f.rschema, f.rtable}], 0, key, rkey)
	}
	return &evaluation{sys: b.t, reverse: k.reverse}
}

func (k *catalogue) sqlserver() *evaluation {
	b := &builder{map[string]*sysTable{}}
	obj := "name object_id schema_id parent_object_id type type_desc is_ms_shipped"
	b.table("sys.schemas", "name schema_id")
	b.table("sys.objects", obj)
	b.table("sys.tables", obj)
	b.table("sys.views", obj)
	b.table("sys.foreign_keys", obj+" referenced_object_id")
	b.table("sys.columns", "object_id name column_id")
	b.table("sys.indexes", "object_id name index_id type is_primary_key is_unique")
	b.table("sys.index_columns", "object_id index_id index_column_id column_id key_ordinal is_included_column")
	b.table("sys.foreign_key_columns", "constraint_object_id constraint_column_id parent_object_id parent_column_id referenced_object_id referenced_column_id")
	b.table("sys.extended_properties", "class class_desc major_id minor_id name value")
	b.table("information_schema.tables", "table_catalog table_schema table_name table_type")
	b.table("information_schema.views", "table_catalog table_schema table_name")
	b.table("information_schema.columns", "table_catalog table_schema table_name column_name data_type is_nullable character_maximum_length ordinal_position")
	id := 100
	next := func() int { id++; return id }
	names, ids := map[int64]string{}, map[string]int{}
	for i, s := range k.schemas("dbo", "sys") {
		ids[s], names[int64(i+1)] = i+1, s
		b.row("sys.schemas", s, i+1)
	}
	const db = "db"
	objects := map[[2]string]int{}
	relation := func(t *table, kind string, shipped bool) {
		n := next()
		objects[[2]string{t.schema, t.name}] = n
		desc := t.typ
		if kind == "V" {
			desc = "VIEW"
		}
		row := func(to string) { b.row(to, t.name, n, ids[t.schema], 0, kind, desc, shipped) }
		row("sys.objects")
		if kind == "V" {
			row("sys.views")
			b.row("information_schema.tables", db, t.schema, t.name, "VIEW")
			b.row("information_schema.views", db, t.schema, t.name)
		} else {
			row("sys.tables")
			b.row("information_schema.tables", db, t.schema, t.name, "BASE TABLE")
			b.row("sys.indexes", n, nil, 0, 0, false, false) // the heap
		}
		for i, c := range t.columns {
			b.row("sys.columns", n, c.name, i+1)
			b.row("information_schema.columns", db, t.schema, t.name, c.name, c.typ, c.null, c.max, c.pos)
		}
		for i, x := range t.indexes {
			b.row("sys.indexes", n, x.name, i+1, 2, x.primary, x.uni)
			for j, c := range x.columns {
				b.row("sys.index_columns", n, i+1, j+1, attnum(t, c), j+1, false)
			}
			for j, c := range t.included {
				if i < len(t.indexes)-1 {
					break
				}
				b.row("sys.index_columns", n, i+1, len(x.columns)+j+1, attnum(t, c), 0, true)
			}
		}
		for _, p := range t.properties {
			minor := 0
			if p == "MS_Description of a column" {
				p, minor = "MS_Description", 1
			}
			b.row("sys.extended_properties", 1, "OBJECT_OR_COLUMN", n, minor, p, "text")
		}
	}
	shipped := table{schema: "dbo", name: "spt_values", typ: "USER_TABLE", columns: []column{col("id", 1)}}
	relation(&shipped, "U", true)
	// the diagrams of the tools
	tools := table{schema: "dbo", name: "sysdiagrams", typ: "USER_TABLE", columns: []column{col("id", 1)}, properties: []string{"microsoft_database_tools_support"}}
	relation(&tools, "U", false)
	for i := range k.tables {
		relation(&k.tables[i], "U", false)
	}
	for i := range k.views {
		relation(&k.views[i], "V", false)
	}
	b.row("sys.extended_properties", 0, "DATABASE", 0, 0, "MS_Description", "text")
	b.row("sys.extended_properties", 3, "SCHEMA", 1, 0, "MS_Description", "text")
	for _, f := range k.constraints() {
		n := next()
		from, to := k.find(f.schema, f.table), k.find(f.rschema, f.rtable)
		p, q := objects[[2]string{f.schema, f.table}], objects[[2]string{f.rschema, f.rtable}]
		b.row("sys.objects", f.name, n, ids[f.schema], p, "F", "FOREIGN_KEY_CONSTRAINT", false)
		b.row("sys.foreign_keys", f.name, n, ids[f.schema], p, "F", "FOREIGN_KEY_CONSTRAINT", false, q)
		for i := range f.columns {
			b.row("sys.foreign_key_columns", n, i+1, p, attnum(from, f.columns[i]), q, attnum(to, f.rcolumns[i]))
		}
	}
	return &evaluation{sys: b.t, reverse: k.reverse, funcs: map[string]func(any) any{
		"schema_name": func(v any) any {
			n, ok := v.(int64)
			if !ok {
				dunno("schema_name of %T", v)
			}
			if s, ok := names[n]; ok {
				return s
			}
			return nil
		},
		"schema_id": func(v any) any {
			if n, ok := ids[asText(v)]; ok {
				return int64(n)
			}
			return nil
		},
	}}
}

// system answers a query by evaluating it; what is not known of it is answered as before.
func (k *catalogue) system(dialect string, unknown func(sql, why string)) func(o *fakedb.Op) (*fakedb.Result, error) {
	var e *evaluation
	if dialect == "postgres" {
		e = k.postgres()
	} else {
		e = k.sqlserver()
	}
	return func(o *fakedb.Op) (*fakedb.Result, error) {
		e.params = map[string]any{}
		for i, a := range o.Args {
			if n := o.Names[i]; n != "" {
				e.params["@"+strings.ToLower(n)] = a
			} else {
				e.params[fmt.Sprint("$", i+1)] = a
				e.params[fmt.Sprint("@p", i+1)] = a
			}
		}
		t, why := e.evaluate(o.SQL)
		if t == nil {
			unknown(o.SQL, why)
			return k.answer(o)
		}
		// the rows are changed by the checks
		res := &fakedb.Result{Cols: t.cols}
		for _, r := range t.rows {
			res.Rows = append(res.Rows, append([]any{}, r...))
		}
		return res, nil
	}
}
