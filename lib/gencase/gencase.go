// Package gencase describes what the generator of models is run on, for the check of it and
// for the program that is compiled together with the generated packages.
package gencase

import (
	"fmt"
	"strings"
	"time"
)

// Column of a table.
type Column struct {
	Name, Type, Udt string
	Null            bool
	Max, Pos        uint32
	// Field is the name the definitions give to the field, if any.
	Field string
	// As is the type the definitions give to it, if any.
	As string
}

// Index of a table.
type Index struct {
	Name            string
	Primary, Unique bool
	Columns         []string
}

// Table of a database.
type Table struct {
	Schema, Name string
	View         bool
	Columns      []Column
	Indexes      []Index
	// Struct is the name the definitions give to the struct, if any.
	Struct string
	Cached bool
}

// Primary is the column that is the primary key on its own, or -1.
func (t *Table) Primary() int {
	for _, x := range t.Indexes {
		if x.Primary && len(x.Columns) == 1 {
			for i, c := range t.Columns {
				if c.Name == x.Columns[0] {
					return i
				}
			}
		}
	}
	return -1
}

// Case is one run of the generator.
type Case struct {
	ID        int
	Provider  string
	DB        string
	Tables    []Table
	Drop      []string
	UseSchema bool
	Suffix    string
	Typesdef  bool
	Count     string // type of columns that count
	PkgModel  string
	PkgSchema string
	Twice     bool // generated over the output of a larger catalogue
	// Others are in the catalogue and not asked for.
	Others []Table
	Deps   bool
	// Fault is what goes wrong.
	Fault string
}

func (c *Case) String() string {
	s := fmt.Sprintf("%s drop %q useSchema %v suffix %q definitions %v packages %q %q twice %v others %d deps %v fault %q:", c.Provider, c.Drop, c.UseSchema, c.Suffix, c.Typesdef, c.PkgModel, c.PkgSchema, c.Twice, len(c.Others), c.Deps, c.Fault)
	for _, t := range c.Tables {
		s += fmt.Sprintf(" %s.%s(%d columns)", t.Schema, t.Name, len(t.Columns))
	}
	return s
}

// Kept are the columns that are not dropped.
func (c *Case) Kept(t *Table) (l []Column) {
	drop := map[string]bool{}
	if c.Typesdef {
		for _, d := range c.Drop {
			drop[d] = true
		}
	}
	for _, k := range t.Columns {
		if !drop[k.Name] {
			l = append(l, k)
		}
	}
	return l
}

// Typ is a type of columns with what the driver of the database returns for it.
type Typ struct {
	Type, Udt string
	Values    []any
	ID        []any // for columns that hold identifiers
}

var (
	at   = time.Date(2024, 2, 29, 13, 14, 15, 678000000, time.UTC)
	day  = time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC)
	text = []any{"plain", "Ü 'x'", "a\nb"}
)

// Types of the columns of a database.
func Types(provider string) []Typ {
	if provider == "postgres" {
		return []Typ{
			{"bigint", "int8", []any{int64(1), int64(-5), int64(1 << 62)}, []any{int64(1), int64(1<<63 - 1)}},
			{"integer", "int4", []any{int64(1), int64(-1 << 31), int64(1<<31 - 1)}, []any{int64(1), int64(1<<31 - 1)}},
			{"smallint", "int2", []any{int64(1), int64(-1 << 15), int64(1<<15 - 1)}, nil},
			{"numeric", "numeric", []any{[]byte("1.5"), []byte("-0.25")}, nil},
			{"real", "float4", []any{1.5, -0.25}, nil},
			{"double precision", "float8", []any{1.5, 1e300}, nil},
			{"boolean", "bool", []any{true, false}, nil},
			{"jsonb", "jsonb", []any{[]byte(`{"a": 1}`), []byte(`[]`)}, nil},
			{"bytea", "bytea", []any{[]byte{0, 255, 7}, []byte("x")}, nil},
			{"character varying", "varchar", text, nil},
			{"character", "bpchar", text, nil},
			{"text", "text", text, nil},
			{"cidr", "cidr", []any{[]byte("10.0.0.0/8")}, nil},
			{"inet", "inet", []any{[]byte("10.0.0.1")}, nil},
			{"USER-DEFINED", "ltree", []any{[]byte("a.b")}, nil},
			{"date", "date", []any{day}, nil},
			{"timestamp without time zone", "timestamp", []any{at}, nil},
			{"timestamp with time zone", "timestamptz", []any{at, at.In(time.FixedZone("", 3600))}, nil},
			{"uuid", "uuid", []any{[]byte("3F2504E0-4F89-11D3-9A0C-0305E82C3301")}, nil},
			{"ARRAY", "_int8", []any{[]byte("{1,2,3}")}, nil},
			{"ARRAY", "_text", []any{[]byte(`{"a","b,c"}`)}, nil},
			{"ARRAY", "_varchar", []any{[]byte(`{"a"}`)}, nil},
		}
	}
	return []Typ{
		{"bigint", "bigint", []any{int64(1), int64(-5), int64(1 << 62)}, []any{int64(1), int64(1<<63 - 1)}},
		{"int", "int", []any{int64(1), int64(-1 << 31), int64(1<<31 - 1)}, []any{int64(1), int64(1<<31 - 1)}},
		{"smallint", "smallint", []any{int64(1), int64(-1 << 15), int64(1<<15 - 1)}, nil},
		{"tinyint", "tinyint", []any{int64(1), int64(127), int64(255)}, nil},
		{"decimal", "decimal", []any{[]byte("1.5"), []byte("-0.25")}, nil},
		{"numeric", "numeric", []any{[]byte("1.5"), []byte("-0.25")}, nil},
		{"real", "real", []any{1.5, -0.25}, nil},
		{"bit", "bit", []any{true, false}, nil},
		{"nchar", "nchar", text, nil},
		{"nvarchar", "nvarchar", text, nil},
		{"char", "char", text, nil},
		{"varchar", "varchar", text, nil},
		{"text", "text", text, nil},
		{"date", "date", []any{day}, nil},
		{"datetime", "datetime", []any{at}, nil},
		{"datetime2", "datetime2", []any{at}, nil},
		{"uniqueidentifier", "uniqueidentifier", []any{[]byte{0xE0, 0x04, 0x25, 0x3F, 0x89, 0x4F, 0xD3, 0x11, 0x9A, 0x0C, 0x03, 0x05, 0xE8, 0x2C, 0x33, 0x01}}, nil},
	}
}

// IsID says whether the name is the one of an identifier.
func IsID(name string) bool {
	return strings.EqualFold(name, "id") || strings.HasSuffix(name, "_id") || strings.HasSuffix(name, "Id") || strings.HasSuffix(name, "ID")
}
