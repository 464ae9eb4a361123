T = "internal/cli/schema/types.go"
G = "internal/cli/schema/schema.go"
D = '''package schema

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/effective-security/xdb/internal/cli"
	"github.com/effective-security/xdb/schema"
	"github.com/effective-security/xdb/pkg/print"
)

var _ = fmt.Sprint
var _ = print.SchemaTable
var _ bytes.Buffer
var _ context.Context
var _ cli.Cli

func zzTable(name string, cols ...*schema.Column) *schema.Table {
	t := &schema.Table{Schema: "public", Name: name, SchemaName: "public." + name, Columns: cols}
	for i, c := range cols {
		c.SchemaName = t.SchemaName + "." + c.Name
		c.Position = uint32(i + 1)
	}
	return t
}

func zzGen(t *testing.T, a *GenerateCmd, tt ...*schema.Table) (string, string) {
	d := t.TempDir()
	a.OutModel, a.OutSchema = filepath.Join(d, "model"), filepath.Join(d, "schema")
	ctx := &cli.Cli{}
	if err := a.generate(ctx, "postgres", "db", tt); err != nil {
		t.Fatal(err)
	}
	m, _ := os.ReadFile(filepath.Join(a.OutModel, "model.gen.go"))
	s, _ := os.ReadFile(filepath.Join(a.OutSchema, "schema.gen.go"))
	return strings.Join(strings.Fields(string(m)), " "), strings.Join(strings.Fields(string(s)), " ")
}

func TestZZDemo(t *testing.T) {
'''
plant("G01-id-suffix", "G01", [(T, '''		strings.HasSuffix(c.Name, "_id") ||
''', '''		strings.HasSuffix(c.Name, "id") ||
''')], "internal/cli/schema", D + '''
	if s := toGoType(&schema.Column{Name: "paid", Type: "bigint", UdtType: "int8"}); s != "int64" {
		t.Fatal(s)
	}
}
''', "a number in a column whose name ends with the letters id", "negative numbers of it cannot be read")

plant("G01-float8", "G01", [(T, '''	"float8":  "float64",''', '''	"float8":  "float32",''')], "internal/cli/schema", D + '''
	if s := toGoType(&schema.Column{Name: "a", Type: "double precision", UdtType: "float8"}); s != "float64" {
		t.Fatal(s)
	}
}
''', "a number of a float8 column with more digits than a float32 has", "it is read as another number")

plant("G01-drop-prefix", "G01", [(G, '''	for _, c := range columns {
		if !dropColumnsMap[c] {
			result = append(result, c)
		}
	}
	return result
}

func filterColumns(''', '''	for i, c := range columns {
		if dropColumnsMap[c] {
			result = append(result, columns[i+1:]...)
			break
		}
		result = append(result, c)
	}
	return result
}

func filterColumns(''')], "internal/cli/schema", D + '''
	r := filterColumnNames([]string{"a", "b", "c", "d"}, map[string]bool{"a": true, "c": true})
	if fmt.Sprint(r) != "[b d]" {
		t.Fatal(r)
	}
}
''', "two columns of one table are dropped", "the second one stays in the description")

plant("G01-drop-count", "G01", [(G, '''			Columns:         filterColumns(t.Columns, dropColumnsMap),''', '''			Columns:         filterColumns(t.Columns, dropColumnsMap)[:len(t.Columns)-len(dropColumnsMap)],''')], "internal/cli/schema", D + '''
	f := filepath.Join(t.TempDir(), "defs.yaml")
	_ = os.WriteFile(f, []byte("drop_columns: [x, y]\\n"), 0600)
	m, _ := zzGen(t, &GenerateCmd{TypesDef: f}, zzTable("orders", &schema.Column{Name: "a", Type: "text", UdtType: "text"}, &schema.Column{Name: "b", Type: "text", UdtType: "text"}, &schema.Column{Name: "x", Type: "text", UdtType: "text"}))
	if !strings.Contains(m, "&m.A, &m.B,") {
		t.Fatal(m)
	}
}
''', "a dropped column that a table does not have", "another column of the table is dropped")

plant("G01-table-map", "G01", [(G, """	if res, ok := tableNamesMap[t.SchemaName]; ok {
		return res + "TableInfo"
	}
""", """	if res, ok := tableNamesMap[t.Name]; ok {
		return res + "TableInfo"
	}
""")], "internal/cli/schema", D + """
	f := filepath.Join(t.TempDir(), "defs.yaml")
	_ = os.WriteFile(f, []byte("tables:\\n  public.orders: Purchase\\n"), 0600)
	_, s := zzGen(t, &GenerateCmd{TypesDef: f}, zzTable("orders", &schema.Column{Name: "a", Type: "text", UdtType: "text"}))
	if !strings.Contains(s, "var PurchaseTableInfo ") {
		t.Fatal(s)
	}
}
""", "a table that is given another name by the definitions", "the generated packages do not compile")

plant("G02-length-hidden", "G02", [("pkg/print/schema.go", '''			maxL = fmt.Sprintf("%d", c.MaxLength)''', '''			maxL = fmt.Sprintf("%d", int32(c.MaxLength))''')], "internal/cli/schema", D + '''
	var b bytes.Buffer
	print.SchemaTable(&b, zzTable("t", &schema.Column{Name: "a", MaxLength: 1<<31 + 1}))
	if !strings.Contains(b.String(), "2147483649") {
		t.Fatal(b.String())
	}
}
''', "a column of a length beyond 2^31", "a negative length is printed")

plant("G02-index-columns", "G02", [("pkg/print/schema.go", """			strings.Join(c.ColumnNames, ", "),""", """			strings.Trim(fmt.Sprint(c.ColumnNames), "[]"),""")], "internal/cli/schema", D + """
	var b bytes.Buffer
	print.SchemaIndexes(&b, schema.Indexes{{Name: "first", ColumnNames: []string{"a", "b"}}})
	if !strings.Contains(b.String(), "a, b") {
		t.Fatal(b.String())
	}
}
""", "an index on several columns", "its columns are not told apart")

plant("G02-ref-first", "G02", [("pkg/print/schema.go", """		ref := ""
		if c.Ref != nil {""", """		if c.Ref != nil {"""), ("pkg/print/schema.go", """	for _, c := range r.Columns {
		// TODO: select
		maxL := \"\"""", """	ref := \"\"
	for _, c := range r.Columns {
		// TODO: select
		maxL := \"\"""")], "internal/cli/schema", D + """
	var b bytes.Buffer
	print.SchemaTable(&b, zzTable("t", &schema.Column{Name: "a", Ref: &schema.ForeignKey{RefSchema: "s", RefTable: "u", RefColumn: "c"}}, &schema.Column{Name: "b"}))
	if strings.Count(b.String(), "s.u.c") != 1 {
		t.Fatal(b.String())
	}
}
""", "a column without a reference after one that has one", "the reference of the other column is printed")
