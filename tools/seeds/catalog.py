# changes of the text of the queries; the demonstrations evaluate it with SQLite
D = '''package schema

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"testing"
)

// zzDB answers questions about a catalogue that is kept in SQLite.
type zzDB struct{ data string }

func (c *zzDB) Connect(context.Context) (driver.Conn, error) { return c, nil }
func (c *zzDB) Driver() driver.Driver                        { return nil }
func (c *zzDB) Prepare(string) (driver.Stmt, error)          { return nil, errors.New("no") }
func (c *zzDB) Close() error                                 { return nil }
func (c *zzDB) Begin() (driver.Tx, error)                    { return nil, errors.New("no") }
func (c *zzDB) CheckNamedValue(*driver.NamedValue) error     { return nil }

const zzPy = `
import json, sqlite3, sys
q = json.load(sys.stdin)
db = sqlite3.connect(":memory:")
for s in ("information_schema", "sys"):
    db.execute("attach ':memory:' as " + s)
names = {1: "s1", 2: "s2"}
db.create_function("schema_name", 1, lambda n: names.get(n))
db.executescript(q["data"])
for n in q["args"]:
    pass
print(json.dumps(db.execute(q["sql"], q["args"]).fetchall()))
`

func (c *zzDB) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if strings.Contains(q, "pg_index") || strings.Contains(q, "sys.indexes") {
		return &zzRows{}, nil
	}
	m := map[string]any{}
	for _, a := range args {
		n := a.Name
		if n == "" {
			n = fmt.Sprint(a.Ordinal)
		}
		m[n] = a.Value
	}
	in, _ := json.Marshal(map[string]any{"data": c.data, "sql": q, "args": m})
	cmd := exec.Command("python3", "-c", zzPy)
	cmd.Stdin = strings.NewReader(string(in))
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	r := &zzRows{}
	return r, json.Unmarshal(out, &r.rows)
}

type zzRows struct{ rows [][]any }

func (r *zzRows) Columns() []string {
	if len(r.rows) == 0 {
		return make([]string, 4)
	}
	return make([]string, len(r.rows[0]))
}
func (r *zzRows) Close() error { return nil }
func (r *zzRows) Next(d []driver.Value) error {
	if len(r.rows) == 0 {
		return io.EOF
	}
	for i, v := range r.rows[0] {
		if f, ok := v.(float64); ok {
			v = int64(f)
		}
		d[i] = v
	}
	r.rows = r.rows[1:]
	return nil
}

const zzPG = `
create table information_schema.tables (table_schema, table_name, table_type);
create table information_schema.columns (table_schema, table_name, column_name, data_type, udt_name, is_nullable, character_maximum_length, ordinal_position);
insert into information_schema.tables values ('s1', 't', 'BASE TABLE'), ('s1', 'f', 'FOREIGN'), ('information_schema', 'sql_parts', 'BASE TABLE'), ('pg_catalog', 'pg_class', 'BASE TABLE'),
 ('s1', 'v', 'VIEW'), ('s2', 'v', 'VIEW'), ('pg_catalog', 'pg_views', 'VIEW'), ('information_schema', 'tables', 'VIEW');
insert into information_schema.columns values ('s1', 't', 'a', 'int', 'int4', 'NO', null, 1), ('s1', 'f', 'b', 'int', 'int4', 'NO', null, 1),
 ('s1', 'v', 'x', 'int', 'int4', 'NO', null, 1), ('s2', 'v', 'y', 'int', 'int4', 'NO', null, 1),
 ('pg_catalog', 'pg_views', 'y', 'int', 'int4', 'NO', null, 1), ('information_schema', 'tables', 'y', 'int', 'int4', 'NO', null, 1);
`

const zzMS = `
create table sys.schemas (name, schema_id);
create table sys.tables (name, object_id, schema_id, type_desc, is_ms_shipped);
create table sys.extended_properties (class_desc, major_id, minor_id, name);
create table sys.objects (name, object_id);
create table sys.columns (object_id, name, column_id);
create table sys.foreign_key_columns (constraint_object_id, parent_object_id, parent_column_id, referenced_object_id, referenced_column_id);
create table information_schema.columns (table_schema, table_name, column_name, data_type, is_nullable, character_maximum_length, ordinal_position);
insert into sys.schemas values ('s1', 1), ('s2', 2);
insert into sys.tables values ('t', 11, 1, 'USER_TABLE', 0), ('t', 12, 2, 'USER_TABLE', 0), ('spt', 13, 1, 'USER_TABLE', 1);
insert into sys.columns values (11, 'a', 1), (11, 'b', 2), (12, 'c', 1), (12, 'd', 2);
insert into sys.objects values ('t', 11), ('t', 12), ('fk', 20);
insert into sys.foreign_key_columns values (20, 11, 2, 12, 1);
insert into information_schema.columns values ('s1', 't', 'a', 'int', 'NO', null, 1), ('s1', 't', 'b', 'int', 'NO', null, 2), ('s2', 't', 'c', 'int', 'NO', null, 1), ('s2', 't', 'd', 'int', 'NO', null, 2);
`

func zzTables(tt Tables, err error) string {
	if err != nil {
		return err.Error()
	}
	s := ""
	for _, t := range tt {
		s += t.SchemaName + fmt.Sprint(t.Columns.Names())
	}
	return s
}

func TestZZDemo(t *testing.T) {
	ctx := context.Background()
	pg := NewProvider(sql.OpenDB(&zzDB{zzPG}), "postgres")
	ms := NewProvider(sql.OpenDB(&zzDB{zzMS}), "sqlserver")
	_, _ = pg, ms
'''
PG = "schema/postgres.go"
MS = "schema/sqlserver.go"
tables = '''
	if s := zzTables(%s.ListTables(ctx, nil, nil, false)); s != "%s" {
		t.Fatal(s)
	}
}
'''
views = tables.replace("ListTables(ctx, nil, nil, false)", "ListViews(ctx, nil, nil)")

plant("C01-sql-system", "C01", [(PG, "table_type IN ('BASE TABLE', 'FOREIGN') AND\n		table_schema NOT IN ('pg_catalog', 'information_schema')", "table_type IN ('BASE TABLE', 'FOREIGN') AND\n		table_schema NOT LIKE 'pg_%'")], "schema",
      D + tables % ("pg", "s1.f[b]s1.t[a]"), "the tables of the information schema, which every database has", "they are listed as tables of the user")

plant("C01-sql-foreign", "C01", [(PG, "table_type IN ('BASE TABLE', 'FOREIGN') AND", "table_type LIKE '%TABLE' AND")], "schema",
      D + tables % ("pg", "s1.f[b]s1.t[a]"), "a database with foreign tables", "they are not listed")

plant("C01-sql-views", "C01", [(PG, "	   ON t.table_schema = c.table_schema \n	   AND t.table_name = c.table_name", "	   ON t.table_name = c.table_name")], "schema",
      D + views % ("pg", "s1.v[x]s2.v[y]"), "two views of the same name in different schemas", "each of them has the columns of both")

plant("C01-sql-referenced", "C01", [(MS, "    ON col2.column_id = referenced_column_id AND col2.object_id = tab2.object_id", "    ON col2.column_id = referenced_column_id AND col2.object_id = tab1.object_id")], "schema",
      D + '''
	kk, err := ms.ListForeignKeys(ctx, nil, nil)
	if err != nil || len(kk) != 1 || kk[0].ColumnSchemaName() != "s1.t.b" || kk[0].RefColumnSchemaName() != "s2.t.c" {
		t.Fatal(kk, err)
	}
}
''', "a foreign key between tables of which the columns have other names", "the name of the referenced column is the one of a column of the other table")
