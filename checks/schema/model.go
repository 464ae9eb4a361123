package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verif.local/vlib/fakedb"

	"github.com/effective-security/xdb/schema"
)

// The catalogue of a database.
type column struct {
	name, typ, udt, null string
	max                  any
	pos                  int
}

type index struct {
	name         string
	primary, uni bool
	columns      []string
}

type table struct {
	schema, name, typ string
	columns           []column
	indexes           []index
	hidden            bool // not among the tables listed
	parts             bool // partitioned
	properties        []string
	included          []string // columns of the last index besides those of its key
}

type fkey struct{ name, schema, table, column, rschema, rtable, rcolumn string }

type catalogue struct {
	tables []table
	views  []table
	keys   []fkey
	// rows come in the opposite order, where the queries do not ask for one
	reverse bool
}

var literal = map[string]*regexp.Regexp{
	"schema": regexp.MustCompile(`(?i)table_schema\s*=\s*N?'((?:[^']|'')*)'`),
	"table":  regexp.MustCompile(`(?i)table_name\s*=\s*N?'((?:[^']|'')*)'`),
}

// asked gives the schema and table a query asks for.
func asked(o *fakedb.Op) (s, t string, err error) {
	if strings.Count(o.SQL, "'")%2 == 1 {
		return "", "", fmt.Errorf("syntax error: unterminated string")
	}
	var ok1, ok2 bool
	for i, a := range o.Args {
		v, isText := a.(string)
		if !isText {
			return "", "", fmt.Errorf("not text: %v", a)
		}
		n := strings.ToLower(o.Names[i])
		switch {
		case strings.Contains(n, "schema") || n == "" && i == 0:
			s, ok1 = v, true
		case strings.Contains(n, "table") || n == "" && i == 1:
			t, ok2 = v, true
		}
	}
	if !ok1 {
		if m := literal["schema"].FindStringSubmatch(o.SQL); m != nil {
			s, ok1 = strings.ReplaceAll(m[1], "''", "'"), true
		}
	}
	if !ok2 {
		if m := literal["table"].FindStringSubmatch(o.SQL); m != nil {
			t, ok2 = strings.ReplaceAll(m[1], "''", "'"), true
		}
	}
	if !ok1 || !ok2 {
		return "", "", fmt.Errorf("which table? %v", o)
	}
	return s, t, nil
}

func (k *catalogue) find(s, t string) *table {
	for i := range k.tables {
		if k.tables[i].schema == s && k.tables[i].name == t {
			return &k.tables[i]
		}
	}
	return nil
}

// kind tells which of the questions about the catalogue a query asks.
func kind(sql string) string {
	q := strings.ToLower(sql)
	switch {
	case strings.Contains(q, "foreign key") || strings.Contains(q, "foreign_key") || strings.Contains(q, "confrelid"):
		return "keys"
	case strings.Contains(q, "pg_index") || strings.Contains(q, "sys.indexes"):
		return "indexes"
	case strings.Contains(q, "'view'") || strings.Contains(q, "sys.views"):
		return "views"
	case strings.Contains(q, ".columns"):
		return "columns"
	case strings.Contains(q, ".tables"):
		return "tables"
	}
	return ""
}

// answer is what the database says to a query.
func (k *catalogue) answer(o *fakedb.Op) (*fakedb.Result, error) {
	res := &fakedb.Result{}
	ordered := false
	switch kind(o.SQL) {
	case "keys":
		res.Cols = []string{"n", "s", "t", "c", "rs", "rt", "rc"}
		for _, f := range k.keys {
			res.Rows = append(res.Rows, []any{f.name, f.schema, f.table, f.column, f.rschema, f.rtable, f.rcolumn})
		}
	case "indexes":
		ordered = true
		s, t, err := asked(o)
		if err != nil {
			return nil, err
		}
		res.Cols = []string{"n", "p", "u", "c"}
		if tb := k.find(s, t); tb != nil {
			for _, x := range tb.indexes {
				res.Rows = append(res.Rows, []any{x.name, x.primary, x.uni, strings.Join(x.columns, ",")})
			}
		}
	case "views":
		res.Cols = []string{"s", "t", "n", "y", "u", "l", "m", "p"}
		for _, v := range k.views {
			for _, c := range v.columns {
				res.Rows = append(res.Rows, []any{v.schema, v.name, c.name, c.typ, c.udt, c.null, c.max, int64(c.pos)})
			}
		}
	case "columns":
		s, t, err := asked(o)
		if err != nil {
			return nil, err
		}
		res.Cols = []string{"n", "y", "u", "l", "m", "p"}
		if tb := k.find(s, t); tb != nil {
			for _, c := range tb.columns {
				res.Rows = append(res.Rows, []any{c.name, c.typ, c.udt, c.null, c.max, int64(c.pos)})
			}
		}
	case "tables":
		ordered = true
		res.Cols = []string{"s", "t", "y"}
		for _, t := range k.tables {
			if !t.hidden {
				res.Rows = append(res.Rows, []any{t.schema, t.name, t.typ})
			}
		}
	default:
		return nil, fmt.Errorf("unknown question: %s", o.SQL)
	}
	if k.reverse && !ordered {
		for i, j := 0, len(res.Rows)-1; i < j; i, j = i+1, j-1 {
			res.Rows[i], res.Rows[j] = res.Rows[j], res.Rows[i]
		}
	}
	return res, nil
}

func among(list []string, s string) bool {
	if len(list) == 0 {
		return true
	}
	for _, x := range list {
		if strings.EqualFold(x, s) {
			return true
		}
	}
	return false
}

func key(f fkey) string {
	return strings.Join([]string{f.name, f.schema, f.table, f.column, f.rschema, f.rtable, f.rcolumn}, "|")
}

func keyOf(f *schema.ForeignKey) string {
	return key(fkey{f.Name, f.Schema, f.Table, f.Column, f.RefSchema, f.RefTable, f.RefColumn})
}

func null(s string) bool { return strings.EqualFold(s, "YES") }

func length(v any) uint32 {
	if v == nil {
		return 0
	}
	if n := v.(int64); n > 0 {
		return uint32(n)
	}
	// no limit: varchar(max) of SQL Server has the length -1
	return 0
}

func sortedCols(l []column) []column {
	l = append([]column{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i].pos < l[j].pos })
	return l
}

// describe is what a listing must say about a table.
func describe(t table, view bool) string {
	var b strings.Builder
	typ := t.typ
	if t.hidden || view {
		typ = ""
	}
	fmt.Fprintf(&b, "%s.%s type=%s view=%v\n", t.schema, t.name, typ, view)
	if n := len(t.indexes); len(t.included) > 0 {
		t.indexes = append([]index{}, t.indexes...)
		t.indexes[n-1].columns = append(append([]string{}, t.indexes[n-1].columns...), t.included...)
	}
	pk := ""
	for _, c := range sortedCols(t.columns) {
		fmt.Fprintf(&b, "  %s %s %s %v %d %d %s.%s.%s [", c.name, c.typ, c.udt, null(c.null), length(c.max), c.pos, t.schema, t.name, c.name)
		for _, x := range t.indexes {
			for _, n := range x.columns {
				if n == c.name {
					b.WriteString(x.name + " ")
					if x.primary && len(x.columns) == 1 {
						pk = n
					}
				}
			}
		}
		b.WriteString("]\n")
	}
	for _, x := range t.indexes {
		fmt.Fprintf(&b, "  index %s %v %v %q\n", x.name, x.primary, x.uni, x.columns)
	}
	fmt.Fprintf(&b, "  primary key %s\n", pk)
	return b.String()
}

// described is what the listing says.
func described(t *schema.Table) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s.%s type=%s view=%v\n", t.Schema, t.Name, t.Type, t.IsView)
	if t.SchemaName != t.Schema+"."+t.Name {
		fmt.Fprintf(&b, "full name %s\n", t.SchemaName)
	}
	for _, c := range t.Columns {
		fmt.Fprintf(&b, "  %s %s %s %v %d %d %s [", c.Name, c.Type, c.UdtType, c.Nullable, c.MaxLength, c.Position, c.SchemaName)
		for _, x := range c.Indexes {
			b.WriteString(x.Name + " ")
			same := false
			for _, y := range t.Indexes {
				same = same || x == y
			}
			if !same {
				b.WriteString("(not of the table) ")
			}
		}
		b.WriteString("]\n")
	}
	for _, x := range t.Indexes {
		fmt.Fprintf(&b, "  index %s %v %v %q\n", x.Name, x.IsPrimary, x.IsUnique, x.ColumnNames)
		if x.SchemaName != t.SchemaName+"."+x.Name {
			fmt.Fprintf(&b, "full name %s\n", x.SchemaName)
		}
	}
	fmt.Fprintf(&b, "  primary key %s\n", t.PrimaryKeyName())
	if t.PrimaryKey != nil {
		same := false
		for _, c := range t.Columns {
			same = same || c == t.PrimaryKey
		}
		if !same {
			b.WriteString("  (not a column of the table)\n")
		}
	}
	return b.String()
}

// listed are the tables a request must give, in order.
func (k *catalogue) listed(schemas, tables []string, deps bool) []table {
	var l []table
	for _, t := range k.tables {
		if !t.hidden && among(schemas, t.schema) && among(tables, t.name) {
			l = append(l, t)
		}
	}
	if deps {
		for i := 0; i < len(l); i++ {
			for _, f := range k.keys {
				if f.schema != l[i].schema || f.table != l[i].name {
					continue
				}
				seen := false
				for _, t := range l {
					seen = seen || t.schema == f.rschema && t.name == f.rtable
				}
				if !seen {
					l = append(l, *k.find(f.rschema, f.rtable))
				}
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].schema+"."+l[i].name < l[j].schema+"."+l[j].name })
	return l
}

func (k *catalogue) listedViews(schemas, tables []string) []table {
	var l []table
	for _, t := range k.views {
		if among(schemas, t.schema) && among(tables, t.name) {
			l = append(l, t)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].schema+"."+l[i].name < l[j].schema+"."+l[j].name })
	return l
}

// differs compares a listing of tables with what it must be; "" if it is the same.
func (k *catalogue) differs(got schema.Tables, want []table, deps, view bool) string {
	var w, g []string
	for _, t := range want {
		w = append(w, describe(t, view))
	}
	for _, t := range got {
		g = append(g, described(t))
	}
	for i := 1; i < len(got); i++ {
		if got[i].SchemaName < got[i-1].SchemaName {
			return fmt.Sprintf("%s is listed after %s", got[i].SchemaName, got[i-1].SchemaName)
		}
	}
	sort.Strings(w)
	sort.Strings(g)
	if strings.Join(w, "") != strings.Join(g, "") {
		return fmt.Sprintf("listed\n%s, expected\n%s", strings.Join(g, ""), strings.Join(w, ""))
	}
	for _, t := range got {
		for _, c := range t.Columns {
			var refs []string
			for _, f := range k.keys {
				if f.schema == t.Schema && f.table == t.Name && f.column == c.Name && !view {
					refs = append(refs, key(f))
				}
			}
			if c.Ref == nil {
				if deps && len(refs) > 0 {
					return fmt.Sprintf("%s has no reference, expected %v", c.SchemaName, refs)
				}
				continue
			}
			ok := false
			for _, x := range refs {
				ok = ok || x == keyOf(c.Ref)
			}
			if !ok {
				return fmt.Sprintf("%s refers to %s, expected %v", c.SchemaName, keyOf(c.Ref), refs)
			}
		}
	}
	return ""
}

func (k *catalogue) differsKeys(got schema.ForeignKeys, schemas, tables []string) string {
	var w, g []string
	for _, f := range k.keys {
		if among(schemas, f.schema) && among(tables, f.table) {
			w = append(w, key(f))
		}
	}
	for _, f := range got {
		g = append(g, keyOf(f))
		if f.SchemaName != f.Schema+"."+f.Table+"."+f.Name || f.ColumnSchemaName() != f.Schema+"."+f.Table+"."+f.Column || f.RefColumnSchemaName() != f.RefSchema+"."+f.RefTable+"."+f.RefColumn {
			return "full name " + f.SchemaName
		}
	}
	sort.Strings(w)
	sort.Strings(g)
	if strings.Join(w, "\n") != strings.Join(g, "\n") {
		return fmt.Sprintf("listed keys %q, expected %q", g, w)
	}
	return ""
}
