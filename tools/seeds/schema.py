D = '''package schema

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/effective-security/xdb/xsql"
)

var _ = fmt.Sprint
var _ = errors.New
var _ = xsql.Postgres
var _ *sql.DB

type zzV = driver.Value

// a database that answers questions about its catalogue
type zzDB struct {
	tables, views, columns, indexes, keys [][]driver.Value
	end                                   error
}

func (c *zzDB) Connect(context.Context) (driver.Conn, error) { return c, nil }
func (c *zzDB) Driver() driver.Driver                        { return nil }
func (c *zzDB) Prepare(string) (driver.Stmt, error)          { return nil, errors.New("no") }
func (c *zzDB) Close() error                                 { return nil }
func (c *zzDB) Begin() (driver.Tx, error)                    { return nil, errors.New("no") }
func (c *zzDB) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	switch {
	case strings.Contains(q, "confrelid"):
		return &zzRows{c.keys, 7, c.end}, nil
	case strings.Contains(q, "pg_index"):
		return &zzRows{c.indexes, 4, nil}, nil
	case strings.Contains(q, "'VIEW'"):
		return &zzRows{c.views, 8, nil}, nil
	case strings.Contains(q, "information_schema.columns"):
		return &zzRows{c.columns, 6, nil}, nil
	}
	return &zzRows{c.tables, 3, nil}, nil
}

type zzRows struct {
	rows [][]driver.Value
	n    int
	end  error
}

func (r *zzRows) Columns() []string { return make([]string, r.n) }
func (r *zzRows) Close() error      { return nil }
func (r *zzRows) Next(d []driver.Value) error {
	if len(r.rows) == 0 {
		if r.end != nil {
			return r.end
		}
		return io.EOF
	}
	copy(d, r.rows[0])
	r.rows = r.rows[1:]
	return nil
}

func TestZZDemo(t *testing.T) {
	ctx := context.Background()
	_ = ctx
'''
P = "schema/provider.go"
S = "schema/schema.go"

plant("C01-index-fields", "C01", [(P, 'strings.Split(columnNames, ",")', 'strings.FieldsFunc(columnNames, func(r rune) bool { return r == \',\' || r == \' \' })')], "schema", D + '''
	c := &zzDB{tables: [][]driver.Value{{"s", "t", "BASE TABLE"}},
		columns: [][]driver.Value{{"a b", "int", "int4", "NO", nil, int64(1)}},
		indexes: [][]driver.Value{{"i", true, true, "a b"}}}
	tt, err := NewProvider(sql.OpenDB(c), "postgres").ListTables(ctx, nil, nil, false)
	if err != nil || fmt.Sprintf("%q", tt[0].Indexes[0].ColumnNames) != `["a b"]` || tt[0].PrimaryKeyName() != "a b" {
		t.Fatal(tt, err)
	}
}
''', "a column with a space in its name in an index", "the index has other columns, and the table no primary key")

plant("C01-keys-cut", "C01", [(P, '''	if rows.Err() != nil {
		return nil, rows.Err()
	}

	return keys, nil''', '''	if err := rows.Close(); err != nil {
		return nil, errors.WithStack(err)
	}

	return keys, nil''')], "schema", D + '''
	c := &zzDB{keys: [][]driver.Value{{"k", "s", "t", "c", "s", "u", "d"}}, end: errors.New("cut")}
	kk, err := NewProvider(sql.OpenDB(c), "postgres").ListForeignKeys(ctx, nil, nil)
	if err == nil {
		t.Fatal(kk)
	}
}
''', "the connection is cut in the middle of the rows", "a part of the keys is returned as all of them")

plant("C01-positions", "C01", [(P, '''	sort.Slice(cc, func(i int, j int) bool {
		return cc[i].Position < cc[j].Position
	})''', '''	if n := len(cc); n > 0 && (cc[0].Position != 1 || cc[n-1].Position != uint32(n)) {
		sort.Slice(cc, func(i int, j int) bool {
			return cc[i].Position < cc[j].Position
		})
	}''')], "schema", D + '''
	c := &zzDB{tables: [][]driver.Value{{"s", "t", "BASE TABLE"}},
		columns: [][]driver.Value{{"a", "int", "int4", "NO", nil, int64(1)}, {"c", "int", "int4", "NO", nil, int64(3)}, {"b", "int", "int4", "NO", nil, int64(2)}, {"d", "int", "int4", "NO", nil, int64(4)}}}
	tt, err := NewProvider(sql.OpenDB(c), "postgres").ListTables(ctx, nil, nil, false)
	if err != nil || fmt.Sprint(tt[0].Columns.Names()) != "[a b c d]" {
		t.Fatal(tt[0].Columns.Names(), err)
	}
}
''', "the database returns the inner columns of a table out of order, but the first and the last in place", "the columns are not in the order of their positions")

plant("C01-key-names", "C01", [(P, "		keys = append(keys, k)\n", "		if !seen[k.Schema+\".\"+k.Name+\".\"+k.Column] {\n			keys = append(keys, k)\n		}\n		seen[k.Schema+\".\"+k.Name+\".\"+k.Column] = true\n"),
  (P, "	keys := ForeignKeys{}\n	for rows.Next", "	keys := ForeignKeys{}\n	seen := map[string]bool{}\n	for rows.Next")], "schema", D + """
	c := &zzDB{keys: [][]driver.Value{{"k", "s", "t", "c", "s", "u", "d"}, {"k", "s", "v", "c", "s", "u", "d"}}}
	kk, err := NewProvider(sql.OpenDB(c), "postgres").ListForeignKeys(ctx, nil, nil)
	if err != nil || len(kk) != 2 {
		t.Fatal(kk, err)
	}
}
""", "two tables with a foreign key of the same name on a column of the same name", "only one of them is listed")

plant("C02-keys-kept", "C02", [(P, "	name    string\n}", "	name    string\n\n	// foreign keys of the last listing without filters\n	keys ForeignKeys\n}"),
  (P, "	rows, err := r.dialect.QueryForeignKeys(ctx)\n", "	if len(schemas)+len(tables) == 0 && len(r.keys) > 0 {\n		return r.keys, nil\n	}\n	rows, err := r.dialect.QueryForeignKeys(ctx)\n"),
  (P, "	return keys, nil", "	if len(schemas)+len(tables) > 0 {\n		return keys, nil\n	}\n	r.keys = keys\n	return r.keys, nil")], "schema", D + """
	c := &zzDB{keys: [][]driver.Value{{"k", "s", "t", "c", "s", "u", "d"}}}
	p := NewProvider(sql.OpenDB(c), "postgres")
	_, _ = p.ListForeignKeys(ctx, nil, nil)
	c.keys = append(c.keys, []driver.Value{"k2", "s", "t", "c", "s", "u", "d"})
	kk, err := p.ListForeignKeys(ctx, nil, nil)
	if err != nil || len(kk) != 2 {
		t.Fatal(kk, err)
	}
}
""", "a foreign key is added between two listings through one provider", "it is not listed")

plant("C02-filter-grow", "C02", [(P, """		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, k.Schema) {
			continue
		}
		if len(tables) > 0 && !slices.ContainsStringEqualFold(tables, k.Table) {
			continue
		}

		k.Column""", """		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, k.Schema) {
			continue
		}
		if len(tables) > 0 {
			if !slices.ContainsStringEqualFold(tables, k.Table) {
				continue
			}
			// in the order of the last use
			for i := range tables {
				if tables[i] == k.Table {
					tables[0], tables[i] = tables[i], tables[0]
				}
			}
		}

		k.Column""")], "schema", D + """
	c := &zzDB{keys: [][]driver.Value{{"k", "s", "t", "c", "s", "u", "d"}}}
	p := NewProvider(sql.OpenDB(c), "postgres")
	f := []string{"u", "t"}
	_, _ = p.ListForeignKeys(ctx, nil, f)
	if f[0] != "u" {
		t.Fatal(f)
	}
}
""", "a list of tables is used for several listings at the same time", "the listings race on it")

plant("C03-columns-kept", "C03", [(S, "	SchemaName string `json:\"-\" yaml:\"-\"`\n}\n\n// From starts FROM expression", "	SchemaName string `json:\"-\" yaml:\"-\"`\n\n	aliased map[string]string\n}\n\n// From starts FROM expression"),
  (S, "	prefixed := make([]string, len(t.Columns))\n", "	if len(nullColumns) == 0 && t.aliased[prefix] != \"\" {\n		return t.aliased[prefix]\n	}\n	prefixed := make([]string, len(t.Columns))\n"),
  (S, "	return strings.Join(prefixed, \", \")", "	res := strings.Join(prefixed, \", \")\n	if len(nullColumns) == 0 {\n		if t.aliased == nil {\n			t.aliased = map[string]string{}\n		}\n		t.aliased[prefix] = res\n	}\n	return res")], "schema", D + """
	ti := &TableInfo{Columns: []string{"a", "b"}}
	_ = ti.AliasedColumns("x", nil)
	ti.Columns = append(ti.Columns, "c")
	if s := ti.AliasedColumns("x", nil); s != "x.a, x.b, x.c" {
		t.Fatal(s)
	}
}
""", "a column is added to a description that was used before", "statements do not have it")

plant("C03-primary-first", "C03", [(S, '''	for _, idx := range c.Indexes {
		if idx.IsPrimary {
			return true
		}
	}
	return false''', '''	return len(c.Indexes) > 0 && c.Indexes[0].IsPrimary''')], "schema", D + '''
	c := &Column{Name: "a", Type: "int", Indexes: Indexes{{Name: "i"}, {Name: "pk", IsPrimary: true}}}
	if !strings.Contains(c.Tag(), "primary") {
		t.Fatal(c.Tag())
	}
}
''', "a column of the primary key that is in another index before", "its tag does not say that it is primary")

plant("C03-update-name", "C03", [(S, "	return t.Dialect.Update(t.SchemaName)", "	return t.Dialect.Update(strings.ToLower(t.SchemaName))")], "schema", D + '''
	ti := &TableInfo{SchemaName: `"S"."T"`, Dialect: xsql.Postgres}
	q := ti.Update().Set("a", 1).String()
	if !strings.Contains(q, `"S"."T"`) {
		t.Fatal(q)
	}
}
''', "an update of a table whose name has capital letters", "another table is named")
