H = '''package xdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/cockroachdb/errors"
	"github.com/effective-security/x/values"
)

var _ = fmt.Sprint
var _ = reflect.DeepEqual
var _ = json.Marshal
var _ = time.Now
var _ driver.Value
var _ context.Context
var _ *sql.DB
var _ = errors.New
var _ values.MapAny

func TestZZDemo(t *testing.T) {
'''
P = "params.go"
plant("Q03-high-positions", "Q03", [(P, "n.WriteString(strconv.FormatUint(b.positions, 16))", "n.WriteString(strconv.FormatInt(int64(int32(b.positions)), 16))")], ".", H + '''
	a := NewQueryParams("q").Set(2, 1).Set(40, "x").Name()
	b := NewQueryParams("q").Set(2, 1).Set(41, "x").Name()
	if a == b {
		t.Fatal(a)
	}
}
''', "positions above 31", "different parameter sets have the same name, and use the SQL of one another")
plant("Q03-enum-value", "Q03", [(P, "n.WriteString(strconv.FormatUint(uint64(e.value), 16))", "n.WriteString(strconv.FormatUint(uint64(e.value)&0xfff, 16))")], ".", H + '''
	a := NewQueryParams("q").SetEnum(2, 0x1001).Name()
	b := NewQueryParams("q").SetEnum(2, 0x2001).Name()
	if a == b {
		t.Fatal(a)
	}
}
''', "enumerated values of 4096 and more", "different parameter sets have the same name")
plant("Q03-cursor-offset", "Q03", [(P, '		if b.cursor != nil {\n			n.WriteString("_c")\n		} else if b.offset > 0 {', '		if b.cursor != nil && b.cursor != "" {\n			n.WriteString("_c")\n		} else if b.offset > 0 {')], ".", H + '''
	a := NewQueryParams("q").SetCursor(10, 1, "").Name()
	b := NewQueryParams("q").SetCursor(10, 1, "x").Name()
	if a != b {
		t.Fatal(a, b)
	}
}
''', "the first page of a walk by cursor has an empty cursor", "the name depends on the value of an argument; the kind of paging is not in it")
plant("Q04-page-default", "Q04", [(P, "	b.offset = offset\n	b.args = append(b.args, b.limit, b.offset)", "	b.offset = offset\n	b.args = append(b.args, values.NumbersCoalesce(limit, uint32(len(b.args)), DefaultPageSize), b.offset)")], ".", H + '''
	q := NewQueryParams("q").Set(1, "a").SetPage(0, 5)
	if got := fmt.Sprint(q.Args()); got != "[a 500 5]" {
		t.Fatal(got)
	}
}
''', "a page size of zero together with other arguments", "another page size is sent than reported")
plant("Q04-enum-last", "Q04", [(P, "	b.positions |= 1 << pos\n	b.hash = \"\"\n	b.enums = append(b.enums, enumPosition{pos, v})", "	if !b.IsSet(pos) {\n		b.enums = append(b.enums, enumPosition{pos, v})\n	}\n	b.positions |= 1 << pos\n	b.hash = \"\"")], ".", H + '''
	q := NewQueryParams("q").Set(3, "a").SetEnum(3, 7)
	if v, ok := q.GetEnum(3); !ok || v != 7 {
		t.Fatal(v, ok)
	}
}
''', "an enumerated value at a position that also has a value", "the enumerated value is lost")
plant("Q04-reset-args", "Q04", [(P, "	b.args = nil\n	b.hash = \"\"\n	b.limit = 0", "	b.args = b.args[:0]\n	b.hash = \"\"\n	b.limit = 0")], ".", H + '''
	q := NewQueryParams("q").Set(1, "a").Set(2, "b")
	args := q.Args()
	q.Reset()
	q.Set(1, "c")
	if got := fmt.Sprint(args); got != "[a b]" {
		t.Fatal(got)
	}
}
''', "arguments handed out are still in use when the object is reset and filled again", "arguments already handed to a query change")
Q = "query.go"
plant("Q05-trailing", "Q05", [(Q, "	err = json.Unmarshal(js, &m)\n", "	err = json.NewDecoder(bytes.NewReader(js)).Decode(&m)\n")], ".", H + '''
	c := EncodeCursor(values.MapAny{"a": 1})
	b := "eyJhIjoxfXgieQ" // {"a":1}x"y
	_ = c
	if m, err := DecodeCursor(b); err == nil {
		t.Fatal(m)
	}
}
''', "text that starts like a cursor and goes on", "it is accepted as a cursor")
I = "id.go"
plant("V01-id-null", "V01", [(I, "	if value == nil {\n		*v = ID{}\n		return nil\n	}\n\n	var id uint64\n	switch vid := value.(type) {\n	case uint64:\n		id = vid\n	case int64:\n		id = uint64(vid)\n	case int:\n		id = uint64(vid)\n	case uint:\n		id = uint64(vid)\n	default:\n		return errors.Errorf(\"unsupported scan type: %T\", value)\n	}\n\n	*v = NewID(id)", "	if value == nil {\n		*v = ID{}\n		return nil\n	}\n\n	var id uint64\n	switch vid := value.(type) {\n	case uint64:\n		id = vid\n	case int64:\n		id = uint64(max(vid, 0))\n	case int:\n		id = uint64(vid)\n	case uint:\n		id = uint64(vid)\n	default:\n		return errors.Errorf(\"unsupported scan type: %T\", value)\n	}\n\n	*v = NewID(id)")], ".", H + '''
	id := NewID(1<<63 + 5)
	v, _ := id.Value()
	var back ID
	if err := back.Scan(v); err == nil && back.UInt64() != id.UInt64() {
		t.Fatal(back)
	}
}
''', "an identifier of 2^63 or more", "it reads back as no identifier")
plant("I01-concat", "I01", [(I, "	if len(other) < len(n) {\n		return other.Concat(n)\n	}\n	for _, id := range other {", "	if len(other) < len(n) {\n		return other.Concat(n)\n	}\n	if len(n) == 0 {\n		return other\n	}\n	for _, id := range other {")], ".", H + '''
	b := IDArray{NewID(2), NewID(2), NewID(1)}
	var a IDArray
	if got := a.Concat(b).String(); got != "2,1" {
		t.Fatal(got)
	}
}
''', "an empty list is joined with a list that has an element twice", "the result has the element twice and shares the memory of the list", check=True)
plant("I01-scan-cap", "I01", [(I, "		ids := make([]ID, count)\n		for i, id := range int64Array {\n			ids[i] = NewID(uint64(id))\n		}\n		*n = ids", "		var ids IDArray\n		for _, id := range int64Array {\n			ids = ids.Add(NewID(uint64(id)))\n		}\n		*n = ids")], ".", H + '''
	var a IDArray
	if err := a.Scan("{5,7,5}"); err != nil || a.String() != "5,7,5" {
		t.Fatal(a, err)
	}
}
''', "a column whose array has an element twice", "elements get lost in reading")
plant("I01-overlaps", "I01", [(I, "	for _, v := range n {\n		if other.Contains(v) {\n			return true\n		}\n	}\n	return false", "	if len(n) > 8 && len(other) > 8 {\n		a, b := n.Sort(), other.Sort()\n		for i, j := 0, 0; i < len(a) && j < len(b); {\n			switch x, y := a[i].UInt64(), b[j].UInt64(); {\n			case x == y:\n				return true\n			case x < y:\n				i++\n			default:\n				j++\n			}\n		}\n		return false\n	}\n	for _, v := range n {\n		if other.Contains(v) {\n			return true\n		}\n	}\n	return false")], ".", H + '''
	var a, b IDArray
	for i := uint64(20); i > 0; i-- {
		a, b = a.Add(NewID(i)), b.Add(NewID(i+100))
	}
	was := a.String()
	a.Overlaps(b)
	if a.String() != was {
		t.Fatal(a)
	}
}
''', "two lists of more than eight elements", "asking whether lists overlap sorts them")
T = "types.go"
plant("V01-uuid-bytes", "V01", [(T, "vid[5], vid[4], vid[7], vid[6], vid[8], vid[9]", "vid[5], vid[4], vid[7], vid[6], vid[9], vid[8]")], ".", H + '''
	var u UUID
	_ = u.Scan([]byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15})
	if u != "03020100-0504-0706-0809-0A0B0C0D0E0F" {
		t.Fatal(u)
	}
}
''', "a UUID from SQL Server in binary form", "two bytes are swapped")
plant("V01-float-32", "V01", [(T, "		if f, err = strconv.ParseFloat(sf, 64); err != nil {\n			return errors.WithMessagef", "		if f, err = strconv.ParseFloat(sf, 64); err != nil && !errors.Is(err, strconv.ErrRange) {\n			return errors.WithMessagef")], ".", H + '''
	var f Float
	if err := f.Scan([]byte("1e400")); err == nil {
		t.Fatal(f)
	}
}
''', "a decimal column with a number beyond the range of a float", "it reads as infinity")
plant("V01-metadata-empty", "V01", [(T, "func (n KVSet) Value() (driver.Value, error) {\n	if len(n) == 0 {", "func (n KVSet) Value() (driver.Value, error) {\n	if len(n) == 0 || len(n) == 1 && n[\"\"] != nil {")], ".", H + '''
	v, err := KVSet{"": {"a"}}.Value()
	if err != nil || v == nil {
		t.Fatal(v, err)
	}
}
''', "a set with just the empty key", "it is stored as NULL")
plant("V02-bytes-kept", "V02", [(T, "	case string:\n		s = vid\n	default:\n		return errors.Errorf(\"unsupported scan type: %T\", value)\n	}\n\n	*ns = UUID(s)", "	case string:\n		if s = vid; s == \"\" {\n			return nil\n		}\n	default:\n		return errors.Errorf(\"unsupported scan type: %T\", value)\n	}\n\n	*ns = UUID(s)")], ".", H + '''
	u := UUID("x")
	if err := u.Scan(""); err != nil || u != "" {
		t.Fatal(u, err)
	}
}
''', "an empty text is read into a variable that was used before", "the previous value stays")
plant("V03-float-digits", "V03", [(T, "	f, err := strconv.ParseFloat(s, 64)\n	if err != nil {\n		return errors.Errorf(\"expected number value to unmarshal ID: %s\", s)\n	}\n	*v = Float(f)", "	f, err := strconv.ParseFloat(s, 32)\n	if err != nil {\n		return errors.Errorf(\"expected number value to unmarshal ID: %s\", s)\n	}\n	*v = Float(f)")], ".", H + '''
	var f Float
	if err := json.Unmarshal([]byte("16777217"), &f); err != nil || f != 16777217 {
		t.Fatal(f, err)
	}
}
''', "a number that needs more than 24 bits", "it is rounded to single precision")
plant("V03-int64-float", "V03", [(T, "	f, err := strconv.ParseInt(s, 10, 64)\n	if err != nil {\n		return errors.Errorf(\"expected number value to unmarshal ID: %s\", s)\n	}\n	*v = Int64(f)", "	f, err := strconv.ParseInt(s, 10, 64)\n	if err != nil {\n		d, derr := strconv.ParseFloat(s, 64)\n		if derr != nil || d != float64(int64(d)) {\n			return errors.Errorf(\"expected number value to unmarshal ID: %s\", s)\n		}\n		f = int64(d)\n	}\n	*v = Int64(f)")], ".", H + '''
	var v Int64
	if err := json.Unmarshal([]byte("9007199254740993.0"), &v); err == nil && v != 9007199254740993 {
		t.Fatal(v)
	}
	if err := json.Unmarshal([]byte("9223372036854775808"), &v); err == nil {
		t.Fatal(v)
	}
}
''', "a number out of range, or with a fraction part and more than 53 bits", "it is altered")
M = "merge.go"
plant("M01-time-epoch", "M01", [(M, "				val := src.Interface().(Time)\n				if !val.IsZero() {", "				val := src.Interface().(Time)\n				if val.UnixMilli() > 0 {")], ".", H + '''
	type rec struct{ A Time }
	d, s := rec{Now()}, rec{UTC(time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC))}
	if err := Merge(&d, s); err != nil || d.A != s.A {
		t.Fatal(d, err)
	}
}
''', "a time before 1970 in the source", "it is taken as not set")
plant("M01-id-reset", "M01", [(M, "				if val.Valid() {\n					dst.Set(src)", "				if val.Valid() || src.Field(0).UnsafePointer() != nil {\n					dst.Set(src)")], ".", H + '''
	type rec struct{ A ID }
	d, s := rec{NewID(5)}, rec{NewID(7)}
	s.A.Reset()
	if err := Merge(&d, s); err != nil || d.A.UInt64() != 5 {
		t.Fatal(d, err)
	}
}
''', "an identifier of the source was set and then reset", "it overwrites the identifier of the destination")
plant("E01-unwrap", "E01", [(T, "	var notFound *ErrorNotFound\n	if errors.As(err, &notFound) {\n		return true\n	}", "	for e := err; e != nil; e = errors.UnwrapOnce(e) {\n		if _, ok := e.(*ErrorNotFound); ok {\n			return true\n		}\n	}")], ".", H + '''
	nf := NewErrorNotFound(nil, "t", 1)
	if !IsNotFoundError(fmt.Errorf("%w and %w", errors.New("x"), nf)) {
		t.Fatal("joined error is not recognised")
	}
}
''', "the error is one of several joined in one", "a missing row is not recognised")
plant("E01-check-lost", "E01", [(T, "	return &ErrorNotFound{\n		ID:    idStr,\n		Table: table,\n		Err:   err,\n	}", "	return &ErrorNotFound{\n		ID:    idStr,\n		Table: table,\n		Err:   errors.UnwrapAll(err),\n	}")], ".", H + '''
	my := &ErrorNotFound{Table: "inner", ID: "1", Err: sql.ErrNoRows}
	err := CheckNotFoundError(errors.WithMessage(my, "x"), "t", 1)
	if !errors.Is(err, my) {
		t.Fatal(err)
	}
}
''', "the cause of a missing row is wrapped in an error callers look for", "the wrapped errors are no longer reachable")
TM = "time.go"
plant("T01-parse-len", "T01", [(TM, "	case len(time.DateOnly):\n		t, err = time.Parse(time.DateOnly, val)\n", "	case len(time.DateOnly):\n		t, err = time.Parse(time.DateOnly, val)\n	case len(\"2006-01-02T15:04:05Z\"):\n		t, err = time.Parse(\"2006-01-02T15:04:05Z\", val)\n	case len(\"2006-01-02T15:04:05.9Z\"):\n		t, err = time.Parse(\"2006-01-02T15:04:05Z\", val[:19]+\"Z\")\n")], ".", H + '''
	a := UTC(time.Date(2020, 1, 2, 3, 4, 5, 700e6, time.UTC))
	if b := ParseTime(a.String()); b != a {
		t.Fatal(a, b)
	}
}
''', "a time with exactly one digit of fraction", "the fraction is lost")
plant("T01-milli-negative", "T01", [(TM, "func (ns Time) UnixMilli() int64 {\n	return time.Time(ns).UnixMilli()", "func (ns Time) UnixMilli() int64 {\n	t := time.Time(ns)\n	if t.Unix() < 0 {\n		return t.Unix()*1000 - int64(t.Nanosecond())/1e6\n	}\n	return t.UnixMilli()")], ".", H + '''
	a := UTC(time.Date(1950, 1, 2, 3, 4, 5, 700e6, time.UTC))
	if b := FromUnixMilli(a.UnixMilli()); b != a {
		t.Fatal(a, b)
	}
}
''', "a time before 1970 with a fraction", "it reads back as another instant")
plant("T01-add-order", "T01", [(TM, "	return Time(time.Time(ns).Add(after).Truncate(DefaultTrucate).UTC())", "	return Time(time.Time(ns).Add(after.Truncate(DefaultTrucate)).Truncate(DefaultTrucate).UTC())")], ".", H + '''
	a := Time(time.Date(2020, 1, 2, 3, 4, 5, 999900, time.UTC))
	if b := a.Add(200 * time.Microsecond); b.UnixMilli() != a.UnixMilli()+1 {
		t.Fatal(a, b)
	}
	c := UTC(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC))
	if b := c.Add(-time.Microsecond); b.UnixMilli() != c.UnixMilli()-1 {
		t.Fatal(c, b)
	}
}
''', "a negative duration that is not a whole number of milliseconds", "the sum is rounded up instead of down")
