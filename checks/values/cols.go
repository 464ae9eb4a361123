package main

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif.local/vlib/mc"

	"github.com/effective-security/xdb"
)

// scanval is a column type pointer.
type scanval interface {
	sql.Scanner
	driver.Valuer
}

// render gives a canonical text of a column value, through exported behaviour only.
func render(v any) string {
	switch t := v.(type) {
	case xdb.ID:
		return fmt.Sprintf("ID(%d,%q)", t.UInt64(), t.String())
	case xdb.IDArray:
		if len(t) == 0 {
			return "IDArray[]"
		}
		return fmt.Sprintf("IDArray%v", t.List())
	case xdb.Metadata:
		return "Metadata{" + kv(t) + "}"
	case xdb.KVSet:
		m := map[string]string{}
		for k, l := range t {
			m[k] = fmt.Sprintf("%q", l)
		}
		return "KVSet{" + kv(m) + "}"
	case xdb.Strings:
		if t == nil {
			return "Strings(nil)"
		}
		return fmt.Sprintf("Strings%q", []string(t))
	case xdb.Time:
		tt := time.Time(t)
		_, off := tt.Zone()
		if tt.IsZero() {
			return "Time(zero)"
		}
		return fmt.Sprintf("Time(%d.%09d off=%d)", tt.Unix(), tt.Nanosecond(), off)
	case xdb.Float:
		return fmt.Sprintf("Float(%x)", math.Float64bits(float64(t)))
	default:
		return fmt.Sprintf("%T(%v)", v, v)
	}
}

func kv(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q:%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

type column struct {
	name   string
	fresh  func() any // pointer to a new zero value
	values []any
	// forms a driver may use to give back what it was given
	forms func(d driver.Value) []any
	// extra inputs for Scan: well formed and malformed
	inputs []any
}

func sameForms(d driver.Value) []any { return []any{d} }

func intForms(d driver.Value) []any {
	if d == nil {
		return []any{nil}
	}
	i := d.(int64)
	l := []any{i, int(i)}
	if i >= 0 {
		l = append(l, uint64(i), uint(i))
	}
	return l
}

func textForms(d driver.Value) []any {
	if d == nil {
		return []any{nil}
	}
	s := d.(string)
	return []any{s, []byte(s)}
}

func uints(bits int) []uint64 {
	m := map[uint64]bool{}
	max := uint64(math.MaxUint64)
	if bits < 64 {
		max = 1<<bits - 1
	}
	for i := uint64(0); i <= 300; i++ {
		m[i] = true
	}
	for k := 0; k < bits; k++ {
		p := uint64(1) << k
		for _, x := range []uint64{p - 1, p, p + 1} {
			if x <= max {
				m[x] = true
			}
		}
	}
	for p := uint64(1); p <= max/10; p *= 10 {
		for _, x := range []uint64{p - 1, p, p + 1, p * 9, p * 7} {
			m[x] = true
		}
	}
	m[max] = true
	m[max-1] = true
	var l []uint64
	for k := range m {
		if k <= max {
			l = append(l, k)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

var atoms = []string{"", "a", "b", "null", "NULL", "0", "\"", "\\", "'", ",", "{", "}", "[", "]", "a b", " ", "\t", "\n", "é", "世", "\U0001F600", "<&>", "\u2028", "\x7f", "%s", "{}", "[]", "true", "\\u0041"}

// longText is a text of n bytes with different parts.
func longText(n int) string {
	b := make([]byte, 0, n)
	for i := 0; len(b) < n; i++ {
		b = append(b, fmt.Sprintf("%x.", i)...)
	}
	return string(b[:n])
}

func instants() []time.Time {
	zones := []*time.Location{time.UTC, time.FixedZone("p", 2*3600), time.FixedZone("m", -(5*3600 + 1800)), time.FixedZone("x", 14*3600), time.FixedZone("odd", 3723)}
	secs := []int64{0, 1, -1, 59, 60, 86399, 86400, 951782400 /* 2000-02-29 */, 1609459200, 1685377574, 4102444800, -2208988800, 253402300799, -62135596799, -62135510400, 2147483647, 2147483648}
	nanos := []int64{0, 1, 999, 1000, 999999, 1000000, 1000001, 1500000, 123456789, 120000000, 100000000, 999000000, 999999999, 999500000}
	var l []time.Time
	for _, s := range secs {
		for _, n := range nanos {
			for _, z := range zones {
				l = append(l, time.Unix(s, n).In(z))
			}
		}
	}
	return l
}

func columns() []column {
	var cols []column
	id := column{name: "ID", fresh: func() any { return new(xdb.ID) }, forms: intForms}
	for _, u := range uints(64) {
		id.values = append(id.values, xdb.NewID(u))
	}
	id.inputs = []any{nil, int64(0), int64(7), int64(8), uint64(1 << 63), int(12), uint(13), "x", []byte("7"), 1.5, true}
	cols = append(cols, id)

	id32 := column{name: "ID32", fresh: func() any { return new(xdb.ID32) }, forms: intForms}
	for _, u := range uints(32) {
		id32.values = append(id32.values, xdb.ID32(u))
	}
	id32.inputs = []any{nil, int64(0), int64(7), int64(math.MaxUint32), uint64(8), int(9), uint(10), "x", []byte("7")}
	cols = append(cols, id32)

	i64 := column{name: "Int64", fresh: func() any { return new(xdb.Int64) }, forms: intForms}
	i32 := column{name: "Int32", fresh: func() any { return new(xdb.Int32) }, forms: intForms}
	for _, u := range uints(63) {
		i64.values = append(i64.values, xdb.Int64(u), xdb.Int64(-int64(u)))
	}
	i64.values = append(i64.values, xdb.Int64(math.MinInt64))
	for _, u := range uints(31) {
		i32.values = append(i32.values, xdb.Int32(u), xdb.Int32(-int32(u)))
	}
	i32.values = append(i32.values, xdb.Int32(math.MinInt32))
	i64.inputs = []any{nil, int64(0), int64(-7), int64(7), uint64(8), int(9), uint(10), "x", []byte("7")}
	i32.inputs = []any{nil, int64(0), int64(-7), int64(7), uint64(8), int(9), uint(10), "x", []byte("7")}
	cols = append(cols, i64, i32)

	fl := column{name: "Float", fresh: func() any { return new(xdb.Float) }}
	for _, f := range []float64{0, 1, -1, 0.5, 0.1, 1.0 / 3, -1.0 / 3, 1e-6, 1e-7, 1e21, 1e20, 123456.789, -123456.789, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi, 1 << 53, 1<<53 - 1, 1e15, 100, 3, 0.000001, 2.5e-8} {
		fl.values = append(fl.values, xdb.Float(f))
	}
	for k := -60; k < 61; k++ {
		fl.values = append(fl.values, xdb.Float(math.Ldexp(1, k)), xdb.Float(-math.Ldexp(1.7, k)))
	}
	fl.forms = func(d driver.Value) []any {
		if d == nil {
			return []any{nil}
		}
		f := d.(float64)
		l := []any{f, []byte(fmt.Sprintf("%v", f)), []byte(fmt.Sprintf("%.17g", f))}
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			l = append(l, int64(f), int(f))
			if f > 0 {
				l = append(l, uint64(f), uint(f))
			}
		}
		if float64(float32(f)) == f {
			l = append(l, float32(f))
		}
		return l
	}
	fl.inputs = []any{nil, float64(0), float64(1.5), int64(3), uint64(4), []byte("2.25"), []byte("x"), "2.5", true}
	cols = append(cols, fl)

	bo := column{name: "Bool", fresh: func() any { return new(xdb.Bool) }, values: []any{xdb.Bool(true), xdb.Bool(false)}}
	bo.forms = func(d driver.Value) []any {
		if d == nil {
			return []any{nil}
		}
		return []any{d, int64(1), int(1), uint64(1), uint(1)}
	}
	bo.inputs = []any{nil, true, false, int64(0), int64(1), uint64(0), uint64(1), int(0), uint(1), "true", []byte("t")}
	cols = append(cols, bo)

	ns := column{name: "NULLString", fresh: func() any { return new(xdb.NULLString) }, forms: textForms}
	for _, a := range atoms {
		for _, b := range atoms {
			ns.values = append(ns.values, xdb.NULLString(a+b))
		}
	}
	for _, n := range mc.Sizes(70000) {
		ns.values = append(ns.values, xdb.NULLString(longText(n)))
	}
	ns.inputs = []any{nil, "", "abc", "de", []byte("fghij"), []byte{}, int64(5)}
	cols = append(cols, ns)

	uu := column{name: "UUID", fresh: func() any { return new(xdb.UUID) }, forms: textForms}
	for _, s := range []string{"", "A0EEBC99-9C0B-4EF8-BB6D-6BB9BD380A11", "00000000-0000-0000-0000-000000000000", "00112233-4455-6677-8899-AABBCCDDEEFF", "a0eebc99-9c0b-4ef8-bb6d-6bb9bd380a11", "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF"} {
		uu.values = append(uu.values, xdb.UUID(s))
	}
	uu.inputs = []any{nil, "a0eebc99-9c0b-4ef8-bb6d-6bb9bd380a11", []byte("b0eebc99-9c0b-4ef8-bb6d-6bb9bd380a22"),
		[]byte{0x33, 0x22, 0x11, 0x00, 0x55, 0x44, 0x77, 0x66, 0x88, 0x99, 0xAA, 0xBB, 0xCC, 0xDD, 0xEE, 0xFF}, []byte{1, 2, 3}, int64(4), "", []byte{}}
	cols = append(cols, uu)

	st := column{name: "Strings", fresh: func() any { return new(xdb.Strings) }, forms: textForms}
	st.values = append(st.values, xdb.Strings(nil), xdb.Strings{})
	for _, a := range atoms {
		st.values = append(st.values, xdb.Strings{a})
		for _, b := range atoms {
			st.values = append(st.values, xdb.Strings{a, b}, xdb.Strings{a, b, a})
		}
	}
	for _, n := range mc.Sizes(1100) {
		l := make(xdb.Strings, n)
		for i := range l {
			l[i] = fmt.Sprintf("v%d", (i*7919)%(n+1))
		}
		st.values = append(st.values, l, xdb.Strings{"a", longText(n * 17), "b"})
	}
	st.inputs = []any{nil, "", `["a","b","c"]`, `["x"]`, `[]`, `null`, []byte(`["y","z"]`), []byte(`["q"]`), []byte{}, `{`, []byte(`[1`), `["p",5]`}
	cols = append(cols, st)

	md := column{name: "Metadata", fresh: func() any { return new(xdb.Metadata) }, forms: textForms}
	md.values = append(md.values, xdb.Metadata(nil), xdb.Metadata{})
	for _, a := range atoms {
		for _, b := range atoms {
			md.values = append(md.values, xdb.Metadata{a: b}, xdb.Metadata{a: b, b: a}, xdb.Metadata{a: b, "k": a, "z": "1"})
		}
	}
	for _, n := range mc.Sizes(1100) {
		m := xdb.Metadata{}
		for i := 0; i < n; i++ {
			m[fmt.Sprintf("k%d", i)] = fmt.Sprintf("v%d", i*3)
		}
		md.values = append(md.values, m, xdb.Metadata{longText(n): longText(n * 17)})
	}
	md.inputs = []any{nil, "", `{"a":"1","b":"2"}`, `{"c":"3"}`, `{}`, `null`, []byte(`{"a":"9"}`), []byte(`{"d":"4","e":"5"}`), []byte{}, `[`, `{"a":"x","b":5}`, int64(1)}
	cols = append(cols, md)

	ks := column{name: "KVSet", fresh: func() any { return new(xdb.KVSet) }, forms: textForms}
	ks.values = append(ks.values, xdb.KVSet(nil), xdb.KVSet{})
	for _, a := range atoms {
		for _, b := range atoms {
			ks.values = append(ks.values, xdb.KVSet{a: {b}}, xdb.KVSet{a: {b, a}, b: {}}, xdb.KVSet{a: {b, b, a}, "k": {a}})
		}
	}
	for _, n := range mc.Sizes(1100) {
		m, l := xdb.KVSet{}, []string{}
		for i := 0; i < n; i++ {
			m[fmt.Sprintf("k%d", i)] = []string{fmt.Sprintf("v%d", i*3), "x"}
			l = append(l, fmt.Sprintf("v%d", (i*7919)%(n+1)))
		}
		ks.values = append(ks.values, m, xdb.KVSet{"a": l}, xdb.KVSet{longText(n): {longText(n * 17)}})
	}
	ks.inputs = []any{nil, "", `{"a":["1","2"],"b":["3"]}`, `{"a":["9"]}`, `{"c":["4","5"]}`, `{}`, `null`, []byte(`{"b":["7","8"]}`), []byte{}, `[`, `{"a":["1"],"b":5}`, 3.5}
	cols = append(cols, ks)

	ia := column{name: "IDArray", fresh: func() any { return new(xdb.IDArray) }}
	ia.values = append(ia.values, xdb.IDArray(nil), xdb.IDArray{})
	us := []uint64{1, 2, 10, 99, 1 << 31, 1<<63 - 1, 1 << 63, math.MaxUint64}
	for i, a := range us {
		ia.values = append(ia.values, xdb.NewIDArray([]uint64{a}))
		for j, b := range us {
			if i != j {
				ia.values = append(ia.values, xdb.NewIDArray([]uint64{a, b}))
				for k, e := range us {
					if k != i && k != j {
						ia.values = append(ia.values, xdb.NewIDArray([]uint64{a, b, e}))
					}
				}
			}
		}
	}
	for _, n := range mc.Sizes(1100) {
		var long []uint64
		for u := uint64(n); u > 0; u-- {
			long = append(long, u*u<<40+u)
		}
		ia.values = append(ia.values, xdb.NewIDArray(long))
	}
	for _, a := range us {
		for _, b := range us[:3] {
			x, y := xdb.NewID(a), xdb.NewID(b)
			ia.values = append(ia.values, xdb.IDArray{x, x}, xdb.IDArray{x, y, x}, xdb.IDArray{x, x, y, y, x})
		}
	}
	ia.forms = textForms
	ia.inputs = []any{nil, "{}", "{1,2,3}", []byte("{4,5}"), "{6}", "", []byte{}, "{7,7}", []byte("{}"), "{x", int64(5)}
	cols = append(cols, ia)

	tm := column{name: "Time", fresh: func() any { return new(xdb.Time) }}
	tm.values = append(tm.values, xdb.Time{})
	for _, t := range instants() {
		tm.values = append(tm.values, xdb.Time(t))
	}
	tm.forms = func(d driver.Value) []any {
		if d == nil {
			return []any{nil}
		}
		t := d.(time.Time)
		return []any{t, t.In(time.FixedZone("", 7200)), t.In(time.FixedZone("", -3600*7)), t.In(time.UTC)}
	}
	t1 := time.Date(2023, 5, 29, 16, 26, 14, 123456789, time.FixedZone("", 3600))
	tm.inputs = []any{nil, t1, time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC), "", "2023-05-29T16:26:14Z", "2023-05-29T16:26:14.120+02:00", time.Time{}, int64(5), []byte("x")}
	cols = append(cols, tm)
	return cols
}

func deref(p any) any { return reflect.ValueOf(p).Elem().Interface() }

// isEmpty tells which values stand for NULL.
func isEmpty(v any) bool {
	switch t := v.(type) {
	case xdb.ID:
		return t.UInt64() == 0
	case xdb.Strings:
		return t == nil
	case xdb.Metadata:
		return len(t) == 0
	case xdb.KVSet:
		return len(t) == 0
	case xdb.IDArray:
		return len(t) == 0
	case xdb.Time:
		return t.IsZero()
	default:
		return reflect.ValueOf(v).IsZero()
	}
}

// norm is what a value reads back as.
func norm(v any) string {
	switch t := v.(type) {
	case xdb.Time:
		return render(xdb.Time(time.Time(t).UTC()))
	}
	return render(v)
}

func v01(r *mc.Run) {
	r.Rule("every value of a boundary domain of every column type (all powers of two and ten with neighbours, all strings of a 29-atom alphabet up to length 2-3, all instants x zones), converted to a driver value and scanned back in every form a driver may return it; a state is a distinct value")
	cols := columns()
	for _, col := range cols {
		r.Explore(mc.Opt{Part: col.name}, func(c *mc.C) {
			v := col.values[c.Pick(len(col.values))]
			c.Log("%s", render(v))
			c.Run().State(render(v))
			before := render(v)
			d, err := v.(driver.Valuer).Value()
			if err != nil {
				c.Fail(col.name+" value error", "Value() of %s: %v", render(v), err)
				return
			}
			if !driver.IsValue(d) {
				c.Fail(col.name+" not a driver value", "Value() of %s is a %T", render(v), d)
				return
			}
			if (d == nil) != isEmpty(v) {
				c.Fail(col.name+" null", "Value() of %s is %v", render(v), d)
				return
			}
			if tm, ok := d.(time.Time); ok && tm.Location() != time.UTC {
				c.Fail(col.name+" not utc", "Value() of %s is %v", render(v), d)
			}
			fs := col.forms(d)
			form := fs[c.Pick(len(fs))]
			c.Log("form %T", form)
			c.Step()
			p := col.fresh()
			if err := p.(sql.Scanner).Scan(form); err != nil {
				c.Fail(fmt.Sprintf("%s scan of %T", col.name, form), "Scan(%T %v) of %s: %v", form, form, render(v), err)
				return
			}
			want, got := norm(v), norm(deref(p))
			if isEmpty(v) && d == nil && isEmpty(deref(p)) {
				return
			}
			if got != want {
				c.Fail(fmt.Sprintf("%s round trip through %T", col.name, form), "%s read back as %s through %T %v", want, got, form, form)
			}
			if render(v) != before {
				c.Fail(col.name+" changed", "%s changed into %s", before, render(v))
			}
			c.Run().Outcome(got)
		})
	}
	// out of range numbers are refused, never truncated
	r.Explore(mc.Opt{Part: "range"}, func(c *mc.C) {
		big := []uint64{5, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 40, math.MaxInt64, 1 << 63, 1<<63 + 5, math.MaxUint64 - 5, math.MaxUint64, 1<<32 + 5, 1 << 33}
		u := big[c.Pick(len(big))]
		// the number is u, or -u if it is signed
		neg := c.Flag()
		kind := c.Pick(4)
		var form any
		switch c.Pick(4) {
		case 0, 1:
			if u > math.MaxInt64 && (!neg || u > 1<<63) {
				return
			}
			n := int64(u)
			if neg {
				n = -n
			}
			form = n
			if c.Flag() {
				form = int(n)
			}
		case 2:
			form = uint64(u)
		case 3:
			form = uint(u)
		}
		if _, ok := form.(int64); neg && !ok {
			if _, ok := form.(int); !ok {
				return
			}
		}
		c.Step()
		c.Log("%T %v kind %d", form, form, kind)
		var err error
		var got string
		var fits bool
		switch kind {
		case 0:
			v := xdb.Int32(7)
			err = v.Scan(form)
			got = v.String()
			fits = u <= math.MaxInt32 || neg && u == 1<<31
		case 1:
			v := xdb.ID32(7)
			err = v.Scan(form)
			got = v.String()
			fits = !neg && u <= math.MaxUint32
		case 2:
			v := xdb.Int64(7)
			err = v.Scan(form)
			got = v.String()
			fits = u <= math.MaxInt64 || neg && u == 1<<63
		case 3:
			// identifiers of more than 63 bits are kept in negative numbers
			if neg {
				return
			}
			v := xdb.NewID(7)
			err = v.Scan(form)
			got = v.String()
			fits = true
		}
		c.Run().State(fmt.Sprintf("%d %T %v", kind, form, form))
		if fits && (err != nil || got != fmt.Sprint(form)) {
			c.Fail("in range", "scan of %v gave %s, %v", form, got, err)
		}
		if !fits && err == nil {
			c.Fail(fmt.Sprintf("out of range number truncated kind %d", kind), "scan of %T %v gave %s and no error", form, form, got)
		}
	})
	// what is not a value of the column type is refused
	bad := map[string][]any{
		"ID":         {"x", "-1", "1.5", "18446744073709551616", "12a", " 7", []byte("x"), 1.5, true, time.Unix(5, 0)},
		"ID32":       {"x", []byte("x"), 1.5, true, time.Unix(5, 0)},
		"Int64":      {"x", []byte("x"), time.Unix(5, 0)},
		"Int32":      {"x", []byte("x"), time.Unix(5, 0)},
		"Float":      {[]byte("x"), []byte("1.5.2"), []byte("1e400"), []byte("-1e400"), []byte("1e"), []byte("1,5"), []byte(" "), []byte("0x"), []byte("1.5 "), true, time.Unix(5, 0)},
		"Bool":       {"x", []byte("x"), 1.5, time.Unix(5, 0)},
		"UUID":       {int64(4), true, 1.5, []byte{1, 2, 3}},
		"Strings":    {"{", "[1", `["a"`, `{"a":1}`, `["p",5]`, "x", []byte("x"), []byte(`["a",`), int64(5), 1.5},
		"Metadata":   {"{", "[]", `{"a":5}`, `{"a":"b"`, "x", []byte("x"), int64(5), 1.5},
		"KVSet":      {"{", "[]", `{"a":5}`, `{"a":"b"}`, `{"a":["b"}`, "x", []byte("x"), int64(5), 1.5},
		"IDArray":    {"x", "{x}", "{1,x}", "1,2", []byte("x"), int64(5), 1.5},
		"NULLString": {struct{}{}, []int{1}, []string{"a"}, map[string]string{}},
		"Time":       {"x", "2023-13-29T16:26:14Z", "2023-02-30", "2023-05-29T16:26:14.123", "2023-05-29T25:26:14Z", "12:00", "0", []byte("x"), int64(5), 1.5},
	}
	r.Explore(mc.Opt{Part: "malformed"}, func(c *mc.C) {
		col := cols[c.Pick(len(cols))]
		l := append([]any{struct{}{}, []int{1}, map[int]string{}}, bad[col.name]...)
		form := l[c.Pick(len(l))]
		c.Step()
		c.Log("%s %T %v", col.name, form, form)
		p := col.fresh()
		c.Run().State(fmt.Sprintf("%s %T %v", col.name, form, form))
		if err := p.(sql.Scanner).Scan(form); err == nil {
			c.Fail(fmt.Sprintf("%s accepts %T %v", col.name, form, form), "read as %s", render(deref(p)))
		}
	})
	// empty text is the empty value of the types that have one in text, and of no use to the others
	text := map[string]bool{"NULLString": true, "Metadata": true, "KVSet": true, "Strings": true}
	r.Explore(mc.Opt{Part: "empty text"}, func(c *mc.C) {
		col := cols[c.Pick(len(cols))]
		form := []any{"", []byte{}, []byte(nil)}[c.Pick(3)]
		v := col.values[c.Pick(len(col.values))]
		c.Step()
		c.Log("%s %T over %s", col.name, form, render(v))
		p := col.fresh()
		reflect.ValueOf(p).Elem().Set(reflect.ValueOf(v))
		c.Run().State(fmt.Sprintf("%s %T %s", col.name, form, render(v)))
		err := p.(sql.Scanner).Scan(form)
		if text[col.name] && err != nil {
			c.Fail(col.name+" refuses empty text", "%T: %v", form, err)
		}
		if x := deref(p); err == nil && !isEmpty(x) && render(x) != "Strings[]" {
			c.Fail(col.name+" of empty text", "%T over %s reads as %s", form, render(v), render(deref(p)))
		}
	})
	r.Explore(mc.Opt{Part: "uuid-binary"}, func(c *mc.C) {
		b := make([]byte, 16)
		for i := range b {
			b[i] = byte(0x10*i + 1)
		}
		i := c.Pick(16)
		b[i] = []byte{0, 0xff, 0x0a, 0xa0, 0x7f}[c.Pick(5)]
		c.Step()
		var u xdb.UUID
		if err := u.Scan(b); err != nil {
			c.Fail("uuid binary", "%v", err)
			return
		}
		w := fmt.Sprintf("%X-%X-%X-%X-%X", []byte{b[3], b[2], b[1], b[0]}, []byte{b[5], b[4]}, []byte{b[7], b[6]}, b[8:10], b[10:])
		if string(u) != w {
			c.Fail("uuid binary layout", "%v read as %s, expected %s", b, u, w)
		}
		var u2 xdb.UUID = "old"
		n := c.Pick(40)
		if n != 16 && n != 36 {
			if err := u2.Scan(make([]byte, n)); err == nil {
				c.Fail("uuid of a wrong length accepted", "%d bytes: no error, value %q", n, u2)
			}
		}
	})
}

func scribble(v any) {
	if b, ok := v.([]byte); ok {
		for i := range b {
			b[i] = 'X'
		}
	}
}

func dup(v any) any {
	if b, ok := v.([]byte); ok {
		return append([]byte{}, b...)
	}
	return v
}

func v02(r *mc.Run) {
	r.Rule("for every column type, every sequence of scans (well-formed, NULL, malformed) of the given length into one destination, with the driver reusing its buffer after each scan and the caller keeping a copy of every earlier value; after each scan the destination equals a scan into a fresh variable and every kept copy is unchanged")
	depth := mc.Q(r, 3, 4)
	r.Extra("depth", depth)
	for _, col := range columns() {
		r.Explore(mc.Opt{Part: col.name}, func(c *mc.C) {
			p := col.fresh()
			var kept []any
			var keptR []string
			for i := 0; i < depth; i++ {
				in := col.inputs[c.Pick(len(col.inputs))]
				c.Log("Scan(%T %v)", in, in)
				c.Step()
				old := render(deref(p))
				f := col.fresh()
				buf := dup(in)
				ferr := f.(sql.Scanner).Scan(buf)
				want := render(deref(f))
				scribble(buf)
				if ferr == nil && render(deref(f)) != want {
					c.Fail(col.name+" keeps the driver's buffer", "after the driver reused its buffer %s became %s", want, render(deref(f)))
				}
				buf = dup(in)
				err := p.(sql.Scanner).Scan(buf)
				scribble(buf)
				got := render(deref(p))
				if (err == nil) != (ferr == nil) {
					c.Fail(col.name+" error differs", "fresh %v, reused %v", ferr, err)
				}
				if err == nil && got != want {
					c.Fail(col.name+" leaks the previous row", "scan of %v into a variable holding %s gave %s, into a fresh one %s", in, old, got, want)
				}
				for k := range kept {
					if render(kept[k]) != keptR[k] {
						c.Fail(col.name+" changes an earlier value", "value %s kept from an earlier row became %s", keptR[k], render(kept[k]))
						keptR[k] = render(kept[k])
					}
				}
				kept = append(kept, deref(p))
				keptR = append(keptR, render(deref(p)))
				c.Run().State(col.name + got)
			}
			c.Run().Outcome(fmt.Sprint(keptR))
		})
	}
}
