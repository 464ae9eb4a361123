package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"verif.local/vlib/mc"

	"github.com/effective-security/xdb"
	"gopkg.in/yaml.v3"
)

type doc struct {
	ID   xdb.ID         `json:"id" yaml:"id"`
	ID32 xdb.ID32       `json:"id32" yaml:"id32"`
	IDs  xdb.IDArray    `json:"ids" yaml:"ids"`
	I64  xdb.Int64      `json:"i64" yaml:"i64"`
	I32  xdb.Int32      `json:"i32" yaml:"i32"`
	F    xdb.Float      `json:"f" yaml:"f"`
	B    xdb.Bool       `json:"b" yaml:"b"`
	S    xdb.NULLString `json:"s" yaml:"s"`
	U    xdb.UUID       `json:"u" yaml:"u"`
	SS   xdb.Strings    `json:"ss" yaml:"ss"`
	M    xdb.Metadata   `json:"m" yaml:"m"`
	K    xdb.KVSet      `json:"k" yaml:"k"`
	T    xdb.Time       `json:"t" yaml:"-"`
}

func v03(r *mc.Run) {
	r.Rule("every value of the boundary domain of every column type encoded to JSON (directly, inside a struct, inside a slice) and decoded into a fresh and into a previously used variable; IDs, integers and strings also through YAML; every accepted text form of numbers compared with the number it denotes")
	for _, col := range columns() {
		r.Explore(mc.Opt{Part: "json " + col.name}, func(c *mc.C) {
			v := col.values[c.Pick(len(col.values))]
			if f, ok := v.(xdb.Float); ok {
				// floats are written with six decimals
				g, _ := strconv.ParseFloat(fmt.Sprintf("%.6f", float64(f)), 64)
				v = xdb.Float(g)
			}
			c.Log("%s", render(v))
			c.Step()
			c.Run().State(render(v))
			rt := reflect.TypeOf(v)
			var src any = v
			var dst reflect.Value
			mode := c.Pick(4)
			switch mode {
			case 0:
				dst = reflect.New(rt)
			case 1: // slice
				s := reflect.MakeSlice(reflect.SliceOf(rt), 2, 2)
				s.Index(0).Set(reflect.ValueOf(v))
				s.Index(1).Set(reflect.ValueOf(v))
				src = s.Interface()
				dst = reflect.New(reflect.SliceOf(rt))
			case 2: // pointer
				pv := reflect.New(rt)
				pv.Elem().Set(reflect.ValueOf(v))
				src = pv.Interface()
				dst = reflect.New(rt)
			case 3: // used variable
				dst = reflect.New(rt)
				k := len(col.values) / 2
				switch rt.Kind() {
				case reflect.Map: // encoding/json merges into maps by design
				default:
					if ob, err := json.Marshal(col.values[k]); err == nil {
						_ = json.Unmarshal(ob, dst.Interface())
					}
				}
			}
			b, err := json.Marshal(src)
			if err != nil {
				c.Fail(col.name+" marshal", "%s: %v", render(v), err)
				return
			}
			if err := json.Unmarshal(b, dst.Interface()); err != nil {
				c.Fail(col.name+" unmarshal", "%s as %s: %v", render(v), b, err)
				return
			}
			got := dst.Elem()
			if mode == 1 {
				if got.Len() != 2 || norm(got.Index(0).Interface()) != norm(v) {
					c.Fail(col.name+" json slice", "%s as %s read back as %v", render(v), b, got.Interface())
					return
				}
				got = got.Index(1)
			}
			g := got.Interface()
			if jsonNorm(g) != jsonNorm(v) {
				c.Fail(col.name+" json round trip", "%s as %s read back as %s", norm(v), b, norm(g))
			}
			c.Run().Outcome(string(b))
			// stability: encoding again gives the same text
			b2, _ := json.Marshal(g)
			b1, _ := json.Marshal(v)
			if string(b1) != string(b2) {
				c.Fail(col.name+" json unstable", "%s then %s", b1, b2)
			}
		})
	}
	// the fields of a row type do not disturb each other
	r.Explore(mc.Opt{Part: "struct"}, func(c *mc.C) {
		var d doc
		if c.Flag() {
			d.ID = xdb.NewID(1<<63 + 5)
		}
		if c.Flag() {
			d.ID32 = 7
		}
		if c.Flag() {
			d.IDs = xdb.NewIDArray([]uint64{3, 1 << 62})
		}
		if c.Flag() {
			d.I64 = math.MinInt64
		}
		if c.Flag() {
			d.I32 = -5
		}
		if c.Flag() {
			d.F = -2.25
		}
		d.B = xdb.Bool(c.Flag())
		if c.Flag() {
			d.S = "x\"y"
		}
		if c.Flag() {
			d.SS = xdb.Strings{"a", ""}
		}
		if c.Flag() {
			d.M = xdb.Metadata{"a": "b"}
		}
		if c.Flag() {
			d.K = xdb.KVSet{"a": {"b", "c"}}
		}
		if c.Flag() {
			d.T = xdb.ParseTime("2023-05-29T16:26:14.123Z")
		}
		c.Step()
		useYAML := c.Flag()
		var g doc
		var b []byte
		var err error
		if useYAML {
			d.T = xdb.Time{}
			b, err = yaml.Marshal(d)
			if err == nil {
				err = yaml.Unmarshal(b, &g)
			}
		} else {
			b, err = json.Marshal(d)
			if err == nil {
				err = json.Unmarshal(b, &g)
			}
		}
		if err != nil {
			c.Fail("struct", "%v %s", err, b)
			return
		}
		x, y := docText(d), docText(g)
		c.Run().State(x)
		if x != y {
			c.Fail(fmt.Sprintf("struct round trip yaml=%v", useYAML), "%s\nread back as %s\nfrom %s", x, y, b)
		}
	})
	// yaml of identifiers
	us := uints(64)
	r.Explore(mc.Opt{Part: "yaml ID"}, func(c *mc.C) {
		u := us[c.Pick(len(us))]
		c.Step()
		b, err := yaml.Marshal(struct{ A xdb.ID }{xdb.NewID(u)})
		var g struct{ A xdb.ID }
		g.A = xdb.NewID(77)
		if err == nil {
			err = yaml.Unmarshal(b, &g)
		}
		if err != nil || g.A.UInt64() != u {
			c.Fail("yaml ID", "%d as %s read back as %s %v", u, b, g.A, err)
		}
	})
	// accepted text forms
	r.Explore(mc.Opt{Part: "forms"}, func(c *mc.C) {
		u := us[c.Pick(len(us))]
		txt := strconv.FormatUint(u, 10)
		pre := []string{"", "0", "00"}[c.Pick(3)]
		quoted := c.Flag()
		neg := c.Flag()
		s := pre + txt
		if neg {
			s = "-" + s
		}
		if quoted {
			s = `"` + s + `"`
		} else if pre != "" {
			return // not JSON
		}
		c.Log("%s", s)
		c.Step()
		id := xdb.NewID(77)
		err := json.Unmarshal([]byte(s), &id)
		if neg && u != 0 && err == nil {
			c.Fail("ID of a negative number", "%s read as %s", s, id)
		}
		if !neg {
			if err != nil || id.UInt64() != u {
				c.Fail("ID text form", "%s read as %d %v", s, id.UInt64(), err)
			} else {
				want := txt
				if u == 0 {
					want = ""
				}
				if id.String() != want {
					c.Fail("ID text form string", "%s has value %d and string %q", s, id.UInt64(), id.String())
				}
			}
		}
		i64 := xdb.Int64(77)
		err = json.Unmarshal([]byte(s), &i64)
		if fits := u <= math.MaxInt64 || (neg && u == 1<<63); fits {
			w := int64(u)
			if neg {
				w = -w
			}
			if err != nil || int64(i64) != w {
				c.Fail("Int64 text form", "%s read as %d %v", s, i64, err)
			}
		} else if err == nil {
			c.Fail("Int64 text out of range", "%s read as %d", s, i64)
		}
		i32 := xdb.Int32(77)
		err = json.Unmarshal([]byte(s), &i32)
		if fits := u <= math.MaxInt32 || (neg && u == 1<<31); fits {
			w := int64(u)
			if neg {
				w = -w
			}
			if err != nil || int64(i32) != w {
				c.Fail("Int32 text form", "%s read as %d %v", s, i32, err)
			}
		} else if err == nil {
			c.Fail("Int32 text out of range", "%s read as %d", s, i32)
		}
		u32 := xdb.ID32(77)
		err = json.Unmarshal([]byte(s), &u32)
		if !neg && u <= math.MaxUint32 {
			if err != nil || uint64(u32) != u {
				c.Fail("ID32 text form", "%s read as %d %v", s, u32, err)
			}
		} else if err == nil && u != 0 {
			c.Fail("ID32 text out of range", "%s read as %d", s, u32)
		}
		f := xdb.Float(77)
		err = json.Unmarshal([]byte(s), &f)
		w, _ := strconv.ParseFloat(strings.Trim(s, `"`), 64)
		if err != nil || float64(f) != w {
			c.Fail("Float text form", "%s read as %v %v", s, float64(f), err)
		}
	})
	// the texts of numbers
	r.Explore(mc.Opt{Part: "texts"}, func(c *mc.C) {
		u := us[c.Pick(len(us))]
		c.Step()
		c.Run().State(fmt.Sprint(u))
		// the integer in decimal digits, by repeated division
		digits := func(neg bool, u uint64) string {
			s := ""
			for ok := true; ok; ok = u > 0 {
				s = string(rune('0'+u%10)) + s
				u /= 10
			}
			if neg {
				s = "-" + s
			}
			return s
		}
		same := func(what, got, want string) {
			if got != want {
				c.Fail("text of "+what, "%s for %s", got, want)
			}
		}
		i := int64(u)
		w := digits(i < 0, map[bool]uint64{false: uint64(i), true: -uint64(i)}[i < 0])
		same("Int64", xdb.Int64(i).String(), w)
		same("Int64 in quotes", xdb.Int64(i).QuotedString(), `"`+w+`"`)
		j := int32(u)
		w = digits(j < 0, map[bool]uint64{false: uint64(j), true: -uint64(j)}[j < 0])
		same("Int32", xdb.Int32(j).String(), w)
		same("ID32", xdb.ID32(u).String(), digits(false, uint64(uint32(u))))
		if xdb.Int64(i).Int64() != i || xdb.Int32(j).Int32() != j || xdb.Int32(j).Int64() != int64(j) {
			c.Fail("numbers of numbers", "%d %d", i, j)
		}
		same("number of an ID", xdb.IDString(u), digits(false, u))
		same("number of an ID in quotes", xdb.QuotedIDString(u), `"`+digits(false, u)+`"`)
		if v, err := xdb.ParseUint(digits(false, u)); err != nil || v != u {
			c.Fail("number of a text", "%d of %d, %v", v, u, err)
		}
		f := math.Float64frombits(u)
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			if xdb.Float(f).Float() != f {
				c.Fail("number of a Float", "%v", f)
			}
			g, err := strconv.ParseFloat(xdb.Float(f).String(), 64)
			if err != nil || math.Abs(g-f) > 0.000001 && math.Abs(g-f) > math.Abs(f)*1e-15 {
				c.Fail("text of Float", "%s for %v", xdb.Float(f).String(), f)
			}
		}
		same("Bool", xdb.Bool(true).String()+xdb.Bool(false).String(), "truefalse")
		if !xdb.Bool(true).Bool() || xdb.Bool(false).Bool() {
			c.Fail("Bool", "of a Bool")
		}
	})
}

// jsonNorm ignores the difference between an absent and an empty collection.
func jsonNorm(v any) string {
	switch t := v.(type) {
	case xdb.Strings:
		return fmt.Sprintf("%q", []string(t))
	}
	return norm(v)
}

func docText(d doc) string {
	var l []string
	v := reflect.ValueOf(d)
	for i := 0; i < v.NumField(); i++ {
		l = append(l, jsonNorm(v.Field(i).Interface()))
	}
	return strings.Join(l, " ")
}
