package main

import (
	"database/sql"
	"encoding/base64"
	"encoding/json"
	stderrors "errors"
	"fmt"
	"math"
	"strings"
	"time"

	"verif.local/vlib/mc"

	"github.com/cockroachdb/errors"
	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb"
)

func t01(r *mc.Run) {
	r.Rule("every instant of a grid of seconds, sub-second parts and zones, made into a time value in every way the package offers, then rendered, encoded and read back in every way; compared with integer millisecond arithmetic")
	ins := instants()
	durs := []time.Duration{0, 1, -1, time.Microsecond, -time.Microsecond, 999999, 1000000, -1000000, -999999, 1500000, time.Second, -time.Second, time.Hour, 1000 * time.Hour, -1000 * time.Hour}
	floorMs := func(t time.Time) int64 {
		ns := t.Unix()*1000 + int64(t.Nanosecond())/1000000
		return ns
	}
	checkUTC := func(c *mc.C, how string, t xdb.Time) {
		if time.Time(t).Location() != time.UTC {
			c.Fail(how+" not UTC", "%v", time.Time(t))
		}
		if time.Time(t).Nanosecond()%1000000 != 0 {
			c.Fail(how+" finer than a millisecond", "%v", time.Time(t))
		}
	}
	r.Explore(mc.Opt{Part: "instants"}, func(c *mc.C) {
		in := ins[c.Pick(len(ins))]
		c.Log("%s", in.Format(time.RFC3339Nano))
		c.Step()
		ms := floorMs(in)
		c.Run().State(fmt.Sprint(in.UnixNano(), in.Location()))
		t := xdb.UTC(in)
		checkUTC(c, "UTC()", t)
		if t.UnixMilli() != ms {
			c.Fail("UTC() millisecond", "%v became %d, expected %d", in, t.UnixMilli(), ms)
		}
		zero := in.IsZero() || t.IsZero()
		f := xdb.FromUnixMilli(ms)
		checkUTC(c, "FromUnixMilli", f)
		if f.UnixMilli() != ms || !f.UTC().Equal(t.UTC()) {
			c.Fail("FromUnixMilli", "%d became %v", ms, f)
		}
		if t.IsNil() != t.IsZero() || t.IsZero() != t.UTC().IsZero() {
			c.Fail("IsZero", "%v", t)
		}
		if y := t.UTC().Year(); y < 1 || y > 9999 {
			return
		}
		// textual round trip
		s := t.String()
		if zero {
			b, err := json.Marshal(t)
			d, verr := t.Value()
			j := xdb.Time(ins[len(ins)-1])
			jerr := json.Unmarshal(b, &j)
			if s != "" || err != nil || verr != nil || d != nil || t.Ptr() != nil || jerr != nil || !j.IsZero() || !xdb.ParseTime(s).IsZero() {
				c.Fail("zero time", "%q %s %v %v %v", s, b, d, j, jerr)
			}
			if xdb.NullTime(t.Ptr()).Valid || in.IsZero() && xdb.TimePtr(xdb.Time(in)) != nil {
				c.Fail("zero time", "has a pointer")
			}
			return
		}
		if s == "" || t.Ptr() == nil {
			c.Fail("time taken for zero", "%v", in)
		}
		if p := xdb.TimePtr(t); p == nil || !p.Equal(t.UTC()) {
			c.Fail("TimePtr", "%v of %v", p, in)
		}
		if n := xdb.NullTime(t.Ptr()); !n.Valid || !n.Time.Equal(t.UTC()) {
			c.Fail("NullTime", "%v of %v", n, in)
		}
		if d, err := t.Value(); err != nil || d == nil || !d.(time.Time).Equal(t.UTC()) {
			c.Fail("database value", "%v %v", d, err)
		}
		p := xdb.ParseTime(s)
		checkUTC(c, "ParseTime", p)
		if p.UnixMilli() != ms {
			c.Fail("ParseTime(String())", "%v printed %q parsed as %v", in, s, time.Time(p))
		}
		if !strings.HasSuffix(s, "Z") {
			c.Fail("String not UTC", "%q", s)
		}
		// any RFC3339 rendering in any zone parses to the same millisecond
		for _, lay := range []string{time.RFC3339Nano, "2006-01-02T15:04:05.000Z07:00", "2006-01-02T15:04:05.000000Z07:00", "2006-01-02T15:04:05.0000Z07:00", "2006-01-02T15:04:05.00000000Z07:00", "2006-01-02T15:04:05.00Z07:00", "2006-01-02T15:04:05.0Z07:00", "2006-01-02T15:04:05Z07:00"} {
			_, off := in.Zone()
			if off%60 != 0 {
				continue
			}
			txt := in.Format(lay)
			ref, err := time.Parse(time.RFC3339Nano, txt)
			if err != nil {
				continue
			}
			p := xdb.ParseTime(txt)
			checkUTC(c, "ParseTime", p)
			if p.UnixMilli() != floorMs(ref) {
				c.Fail("ParseTime of an RFC3339 text", "%q (%d chars) parsed as %v", txt, len(txt), time.Time(p))
			}
			var sc xdb.Time
			if err := sc.Scan(txt); err != nil || sc.UnixMilli() != floorMs(ref) {
				c.Fail("Scan of a text", "%q: %v %v", txt, sc, err)
			}
		}
		if x := xdb.ParseTime(t.UTC().Format(time.DateTime)); x.UnixMilli() != t.UTC().Unix()*1000 {
			c.Fail("ParseTime of DateTime", "%v", x)
		}
		if x := xdb.ParseTime(t.UTC().Format(time.DateOnly)); x.UTC().Format(time.DateOnly) != t.UTC().Format(time.DateOnly) || x.UTC().Hour() != 0 {
			c.Fail("ParseTime of DateOnly", "%v", x)
		}
		// JSON
		b, err := json.Marshal(t)
		var j xdb.Time
		if err == nil {
			err = json.Unmarshal(b, &j)
		}
		if err != nil || !j.UTC().Equal(t.UTC()) || j.String() != s {
			c.Fail("JSON", "%s %v %v", b, j, err)
		}
		// a time read with an offset is still reported in UTC
		_, off := in.Zone()
		if ob, err := in.MarshalJSON(); err == nil && off%60 == 0 {
			var o xdb.Time
			if err := json.Unmarshal(ob, &o); err != nil || !o.UTC().Equal(in) || o.UTC().Location() != time.UTC || !strings.HasSuffix(o.String(), "Z") {
				c.Fail("JSON with offset", "%s %v %v", ob, o, err)
			}
			d, err := o.Value()
			if tt, ok := d.(time.Time); err != nil || !ok || !tt.Equal(in) || tt.Location() != time.UTC {
				c.Fail("Value of a time with offset", "%s %v", ob, d)
			}
			b, err := json.Marshal(o)
			if err != nil || !strings.HasSuffix(string(b), "Z\"") {
				c.Fail("JSON of a time with offset", "%s", b)
			}
			if p := o.Ptr(); p == nil || !p.Equal(in) || p.Location() != time.UTC {
				c.Fail("Ptr", "%v", p)
			}
		}
		// database/sql forms
		var sc xdb.Time
		if err := sc.Scan(in); err != nil || !sc.UTC().Equal(in) || time.Time(sc).Location() != time.UTC {
			c.Fail("Scan", "%v %v %v", in, sc, err)
		}
		c.Run().Outcome(s)
	})
	r.Explore(mc.Opt{Part: "add"}, func(c *mc.C) {
		in := ins[c.Pick(len(ins))]
		d := durs[c.Pick(len(durs))]
		c.Log("%v + %v", in, d)
		c.Step()
		a := xdb.Time(in).Add(d)
		checkUTC(c, "Add", a)
		if w := floorMs(in.Add(d)); a.UnixMilli() != w {
			c.Fail("Add", "%v + %v = %v", in, d, time.Time(a))
		}
		c.Run().State(fmt.Sprint(in, d))
	})
	r.Explore(mc.Opt{Part: "now"}, func(c *mc.C) {
		d := durs[c.Pick(len(durs))]
		c.Step()
		lo := time.Now()
		n := xdb.Now()
		f := xdb.FromNow(d)
		hi := time.Now()
		checkUTC(c, "Now", n)
		checkUTC(c, "FromNow", f)
		if n.UnixMilli() < lo.UnixMilli() || n.UnixMilli() > hi.UnixMilli() {
			c.Fail("Now", "%v outside %v %v", n, lo, hi)
		}
		if f.UnixMilli() < floorMs(lo.Add(d)) || f.UnixMilli() > floorMs(hi.Add(d)) {
			c.Fail("FromNow", "%v", f)
		}
	})
}

type mergeRow struct {
	ID   xdb.ID
	Ref  xdb.ID
	T    xdb.Time
	S    xdb.NULLString
	Name string
	N    int64
	I64  xdb.Int64
	B    xdb.Bool
	M    xdb.Metadata
	Sub  mergeSub
	P    *mergeSub
}

type mergeSub struct {
	ID xdb.ID
	T  xdb.Time
	S  xdb.NULLString
}

func m01(r *mc.Run) {
	r.Rule("every combination of set and unset fields of two records (identifiers, times, null strings, numbers, strings, metadata, nested record, pointer to record), merged and compared field by field with: the source where it is set, the destination otherwise; the source stays as it was and later changes of one record do not show in the other; and every chain of two (thorough three) merges of metadata and of sets of values over three keys, read in every way in between")
	t1, t2 := xdb.ParseTime("2001-01-01T00:00:00Z"), xdb.ParseTime("2002-02-02T02:02:02Z")
	show := func(m *mergeRow) string {
		sub := func(s mergeSub) string { return fmt.Sprintf("{%s %s %s}", s.ID, s.T, s.S) }
		p := "nil"
		if m.P != nil {
			p = sub(*m.P)
		}
		return fmt.Sprintf("ID=%s Ref=%s T=%s S=%s Name=%s N=%d I64=%d B=%v M=%v Sub=%s P=%s", m.ID, m.Ref, m.T, m.S, m.Name, m.N, m.I64, m.B, m.M, sub(m.Sub), p)
	}
	sets(r)
	opt := mc.Opt{Part: "records"}
	r.Explore(opt, func(c *mc.C) {
		d, s, w := &mergeRow{}, &mergeRow{}, &mergeRow{}
		// each field: dst set?, src set?
		two := func() (bool, bool) { k := c.Pick(4); return k&1 != 0, k&2 != 0 }
		if a, b := two(); true {
			if a {
				d.ID, w.ID = xdb.NewID(1), xdb.NewID(1)
			}
			if b {
				s.ID, w.ID = xdb.NewID(2), xdb.NewID(2)
			}
		}
		if a, b := two(); true {
			if a {
				d.T, w.T = t1, t1
			}
			if b {
				s.T, w.T = t2, t2
			}
		}
		if a, b := two(); true {
			if a {
				d.S, w.S = "a", "a"
			}
			if b {
				s.S, w.S = "b", "b"
			}
		}
		if a, b := two(); true {
			if a {
				d.Name, d.N, d.I64, w.Name, w.N, w.I64 = "a", 1, 3, "a", 1, 3
			}
			if b {
				s.Name, s.N, s.I64, s.B, w.Name, w.N, w.I64, w.B = "b", 2, 4, true, "b", 2, 4, true
			}
		}
		if a, b := two(); true {
			if a {
				d.M, w.M = xdb.Metadata{"x": "1", "y": "1"}, xdb.Metadata{"x": "1", "y": "1"}
			}
			if b {
				s.M = xdb.Metadata{"y": "2", "z": "2"}
				w.M = xdb.Metadata{"y": "2", "z": "2"}
				if a {
					w.M["x"] = "1"
				}
			}
		}
		if a, b := two(); true {
			if a {
				d.Sub, w.Sub = mergeSub{xdb.NewID(5), t1, "q"}, mergeSub{xdb.NewID(5), t1, "q"}
			}
			if b {
				k := c.Pick(3)
				switch k {
				case 0:
					s.Sub.ID, w.Sub.ID = xdb.NewID(6), xdb.NewID(6)
				case 1:
					s.Sub.T, w.Sub.T = t2, t2
				case 2:
					s.Sub.S, w.Sub.S = "w", "w"
				}
			}
		}
		if a, b := two(); true {
			if a {
				d.P, w.P = &mergeSub{ID: xdb.NewID(7), T: t1}, &mergeSub{ID: xdb.NewID(7), T: t1}
			}
			if b {
				s.P = &mergeSub{ID: xdb.NewID(8), S: "p"}
				if w.P == nil {
					w.P = &mergeSub{}
				}
				w.P.ID, w.P.S = xdb.NewID(8), "p"
			}
		}
		before := show(s)
		c.Log("dst %s | src %s", show(d), before)
		c.Step()
		c.Run().State(show(d) + before)
		if err := xdb.Merge(d, *s); err != nil {
			c.Fail("error", "%v", err)
			return
		}
		if show(d) != show(w) {
			c.Fail("merge", "got %s expected %s", show(d), show(w))
		}
		if show(s) != before {
			c.Fail("source changed", "%s became %s", before, show(s))
		}
		_ = d.ID.Set("99")
		d.T = t1
		if d.Sub.ID.Valid() {
			_ = d.Sub.ID.Set("98")
		}
		if show(s) != before {
			c.Fail("records stay connected", "%s became %s after changing the merged record", before, show(s))
		}
		c.Run().Outcome(show(w))
	})
	// unusual values that are set, and unset values that do not look like it
	type val struct {
		name string
		put  func(m *mergeRow)
		set  bool
	}
	id := func(n string, f func() xdb.ID, set bool) []val {
		return []val{{"ID=" + n, func(m *mergeRow) { m.ID = f() }, set}, {"Sub.ID=" + n, func(m *mergeRow) { m.Sub.ID = f() }, set},
			{"P.ID=" + n, func(m *mergeRow) { m.P = &mergeSub{ID: f()} }, set}}
	}
	tm := func(n string, t time.Time, set bool) []val {
		return []val{{"T=" + n, func(m *mergeRow) { m.T = xdb.Time(t) }, set}, {"Sub.T=" + n, func(m *mergeRow) { m.Sub.T = xdb.Time(t) }, set},
			{"P.T=" + n, func(m *mergeRow) { m.P = &mergeSub{T: xdb.Time(t)} }, set}}
	}
	str := func(t string, set bool) []val {
		return []val{{"S=" + t, func(m *mergeRow) { m.S = xdb.NULLString(t) }, set}, {"Sub.S=" + t, func(m *mergeRow) { m.Sub.S = xdb.NULLString(t) }, set},
			{"Name=" + t, func(m *mergeRow) { m.Name = t }, set}}
	}
	var list []val
	add := func(l []val) { list = append(list, l...) }
	for _, u := range uints(64) {
		add(id(fmt.Sprint(u), func() xdb.ID { return xdb.NewID(u) }, u != 0))
	}
	add(id("reset", func() xdb.ID { x := xdb.NewID(7); x.Reset(); return x }, false))
	add(id("scanned null", func() xdb.ID { x := xdb.NewID(7); _ = x.Scan(nil); return x }, false))
	add(id("rendered", func() xdb.ID { x := xdb.NewID(7); _ = x.String(); return x }, true))
	add(id("parsed 0", func() xdb.ID { x, _ := xdb.ParseID("0"); return x }, false))
	for _, in := range instants() {
		if in.UnixNano()%int64(time.Millisecond) == 0 {
			add(tm(in.Format(time.RFC3339Nano), in, !in.IsZero()))
		}
	}
	add(tm("zero", time.Time{}, false))
	for _, a := range atoms {
		add(str(a, a != ""))
	}
	for _, n := range []int64{0, 1, -1, math.MaxInt64, math.MinInt64} {
		add([]val{{fmt.Sprintf("N=%d", n), func(m *mergeRow) { m.N = n }, n != 0}, {fmt.Sprintf("I64=%d", n), func(m *mergeRow) { m.I64 = xdb.Int64(n) }, n != 0}})
	}
	r.Explore(mc.Opt{Part: "values"}, func(c *mc.C) {
		v := list[c.Pick(len(list))]
		fill := func() *mergeRow {
			return &mergeRow{ID: xdb.NewID(101), Ref: xdb.NewID(102), T: t1, S: "s", Name: "n", N: 103, I64: 104, B: true, M: xdb.Metadata{"k": "v"},
				Sub: mergeSub{xdb.NewID(105), t1, "q"}, P: &mergeSub{xdb.NewID(106), t1, "p"}}
		}
		d, w, s := &mergeRow{}, &mergeRow{}, &mergeRow{}
		full := c.Flag()
		if full {
			d, w = fill(), fill()
		}
		v.put(s)
		if v.set {
			p := w.P
			v.put(w)
			if strings.HasPrefix(v.name, "P.") && p != nil {
				// only the field that is set
				if !w.P.ID.Valid() {
					w.P.ID = p.ID
				}
				if w.P.T.IsZero() {
					w.P.T = p.T
				}
				w.P.S = p.S
			}
		} else if s.P != nil && w.P == nil {
			w.P = &mergeSub{}
		}
		c.Log("%s into full=%v", v.name, full)
		c.Step()
		c.Run().State(fmt.Sprint(v.name, full))
		if err := xdb.Merge(d, *s); err != nil {
			c.Fail("error", "%v", err)
			return
		}
		if show(d) != show(w) {
			c.Fail("merge of a value", "%s: got %s expected %s", v.name, show(d), show(w))
		}
		c.Run().Outcome(show(d))
	})
}

type customErr struct{ msg string }

func (e *customErr) Error() string { return e.msg }

func e01(r *mc.Run) {
	r.Rule("every chain of up to the given number of error wrappers over every base error, classified and compared with the chain's own structure")
	depth := mc.Q(r, 4, 6)
	chain := func(c *mc.C, depth, ids int, next func(i int) int) {
		var err error
		nf := false     // not found by structure
		noRows := false // sql.ErrNoRows still reachable
		var base error
		switch c.Pick(7) {
		case 0:
			base, nf, noRows = sql.ErrNoRows, true, true
		case 1:
			base = stderrors.New("connection refused")
		case 2:
			base = &customErr{"sql: no rows in result set"}
			nf = true
		case 3:
			base, nf, noRows = xdb.NewErrorNotFound(sql.ErrNoRows, "t", 5), true, true
		case 4:
			base, nf = xdb.NewErrorNotFound(nil, "t", "5"), true
		case 5:
			base = sql.ErrTxDone
		case 6:
			base = nil
		}
		err = base
		c.Log("base %v", base)
		for i := 0; i < depth; i++ {
			if err == nil {
				break
			}
			k := next(i)
			if k == 0 {
				break
			}
			text := strings.Contains(err.Error(), "no rows in result set")
			switch k {
			case 1:
				err = fmt.Errorf("load user: %w", err)
			case 2:
				err = errors.WithStack(err)
			case 3:
				err = errors.WithMessagef(err, "ctx %d", i)
			case 4:
				err = errors.Wrap(err, "wrapped")
			case 5:
				err = stderrors.Join(stderrors.New("other"), err)
			case 6: // the cause is dropped, only its text remains
				err = fmt.Errorf("flattened: %s", err.Error())
				noRows = false
				nf = text
			case 7:
				err = xdb.NewErrorNotFound(err, "orgs", xdb.NewID(77))
				nf = true
			case 8: // neither cause nor text remains
				err = stderrors.New("internal error")
				nf, noRows = false, false
			}
			c.Log("wrap %d", k)
		}
		if err != nil && strings.Contains(err.Error(), "no rows in result set") {
			nf = true
		}
		c.Step()
		if err != nil {
			c.Run().State(err.Error() + fmt.Sprint(nf, noRows))
		}
		if got := xdb.IsNotFoundError(err); got != nf {
			c.Fail("classification", "IsNotFoundError(%v)=%v", err, got)
		}
		tbl, id := "users", []any{"abc", 42, xdb.NewID(9), int64(-1), uint64(math.MaxUint64)}[c.Pick(ids)]
		idTxt := []string{"abc", "42", "9", "-1", "18446744073709551615"}[func() int {
			for i, x := range []any{"abc", 42, xdb.NewID(9), int64(-1), uint64(math.MaxUint64)} {
				if fmt.Sprintf("%T%v", x, x) == fmt.Sprintf("%T%v", id, id) {
					return i
				}
			}
			return 0
		}()]
		res := xdb.CheckNotFoundError(err, tbl, id)
		if err == nil {
			if res != nil {
				c.Fail("nil", "CheckNotFoundError(nil)=%v", res)
			}
			return
		}
		if res == nil {
			c.Fail("error lost", "CheckNotFoundError(%v)=nil", err)
			return
		}
		if !errors.Is(res, err) {
			c.Fail("cause lost", "%v does not wrap %v", res, err)
		}
		if errors.Is(res, sql.ErrNoRows) != noRows {
			c.Fail("ErrNoRows", "errors.Is(%v, ErrNoRows)=%v", res, !noRows)
		}
		if xdb.IsNotFoundError(res) != nf {
			c.Fail("classification after check", "%v", res)
		}
		fromRows := noRows || strings.Contains(err.Error(), "no rows in result set")
		var e *xdb.ErrorNotFound
		as := errors.As(res, &e)
		if as != nf {
			c.Fail("typed", "errors.As(%v)=%v", res, as)
		}
		if fromRows && as && (e.Table != tbl || e.ID != idTxt) {
			c.Fail("identity", "table %s id %s expected %s %s", e.Table, e.ID, tbl, idTxt)
		}
		if fromRows && !errors.Is(res, &xdb.ErrorNotFound{Table: tbl, ID: idTxt}) {
			c.Fail("identity by Is", "%v", res)
		}
		if fromRows && !noRows && errors.Is(res, &xdb.ErrorNotFound{Table: tbl, ID: idTxt + "0"}) {
			c.Fail("identity of another row", "%v", res)
		}
		c.Run().Outcome(fmt.Sprint(nf, noRows, as))
	}
	r.Explore(mc.Opt{Part: "chains"}, func(c *mc.C) {
		chain(c, depth, 5, func(int) int { return c.Pick(9) })
	})
	// two kinds of wrappers in turn, many times
	r.Explore(mc.Opt{Part: "long chains"}, func(c *mc.C) {
		l := mc.Sizes(mc.Q(r, 70, 300))
		n, k, m := l[c.Pick(len(l))], 1+c.Pick(8), 1+c.Pick(8)
		chain(c, n, 1, func(i int) int {
			if i%2 == 0 {
				return k
			}
			return m
		})
	})
}

func q05(r *mc.Run) {
	r.Rule("every position of up to the given number of entries from a value alphabet (64-bit boundary identifiers, fractions, strings with JSON and URL metacharacters, booleans, nil, nested), encoded and decoded; every decoded entry must read, through each typed accessor, as the entry that went in; every truncation and every one-character corruption of an encoding must be refused or decode to the same data")
	var vals []any
	for _, u := range uints(64) {
		vals = append(vals, u)
	}
	for _, u := range []int64{-1, math.MinInt64, math.MaxInt64, -(1 << 53) - 1, -(1 << 53), 42} {
		vals = append(vals, u)
	}
	vals = append(vals, 0.5, 1e21, -2.25, 1e-7, 123456789.125, 1e300, true, false, nil, uint32(math.MaxUint32), int32(-5), 7)
	for _, a := range atoms {
		vals = append(vals, a, a+"&="+a)
	}
	check := func(c *mc.C, in, out values.MapAny) {
		if len(in) != len(out) {
			c.Fail("entries", "%v became %v", in, out)
			return
		}
		for k, v := range in {
			if _, ok := out[k]; !ok {
				c.Fail("entry lost", "%q", k)
				continue
			}
			ok := true
			switch t := v.(type) {
			case uint64:
				ok = out.UInt64(k) == t && (t > math.MaxInt64 || out.Int64(k) == int64(t)) && (t > math.MaxInt64 || out.Int(k) == int(t))
			case int64:
				ok = out.Int64(k) == t
			case uint32:
				ok = out.UInt64(k) == uint64(t)
			case int32:
				ok = out.Int64(k) == int64(t)
			case int:
				ok = out.Int(k) == t
			case float64:
				ok = out.Float64(k) == t
			case string:
				ok = out.String(k) == t
			case bool:
				ok = out.Bool(k) == t
			case nil:
				ok = out[k] == nil
			}
			if !ok {
				key := fmt.Sprintf("%T entry", v)
				c.Fail(key, "%q: %v became %v", k, v, out[k])
			}
		}
	}
	round := func(c *mc.C, in values.MapAny) {
		c.Step()
		s := xdb.EncodeCursor(in)
		for _, ch := range s {
			if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '-' || ch == '_') {
				c.Fail("not URL safe", "%q", s)
			}
		}
		out, err := xdb.DecodeCursor(s)
		if err != nil {
			c.Fail(fmt.Sprintf("decode error for %d entries", len(in)), "%v as %q: %v", in, s, err)
			return
		}
		check(c, in, out)
		c.Run().Outcome(s)
	}
	r.Explore(mc.Opt{Part: "single"}, func(c *mc.C) {
		k := atoms[c.Pick(len(atoms))]
		v := vals[c.Pick(len(vals))]
		c.Log("%q=%v", k, v)
		c.Run().State(fmt.Sprintf("%q=%T%v", k, v, v))
		round(c, values.MapAny{k: v})
	})
	some := []any{uint64(math.MaxUint64), uint64(1<<53 + 1), int64(math.MinInt64 + 1), 0.5, "x\"", true, nil, "18446744073709551615"}
	n := mc.Q(r, 3, 5)
	r.Explore(mc.Opt{Part: "several"}, func(c *mc.C) {
		in := values.MapAny{}
		for i := 0; i < n; i++ {
			k := c.Pick(len(some) + 1)
			if k == 0 {
				continue
			}
			in[fmt.Sprintf("k%d", i)] = some[k-1]
		}
		if c.Flag() {
			in["nested"] = map[string]any{"id": uint64(1<<60 + 1), "l": []any{uint64(1<<55 + 1), "a"}}
		}
		if len(in) == 0 {
			return // no position: not a cursor
		}
		c.Log("%v", in)
		c.Run().State(fmt.Sprint(in))
		round(c, in)
		if _, ok := in["nested"]; ok {
			out, err := xdb.DecodeCursor(xdb.EncodeCursor(in))
			if err == nil {
				m := out.Map("nested")
				if m.UInt64("id") != 1<<60+1 || values.UInt64(m.Slice("l")[0]) != 1<<55+1 {
					c.Fail("nested numbers", "%v", out)
				}
			}
		}
	})
	r.Explore(mc.Opt{Part: "sizes"}, func(c *mc.C) {
		in := values.MapAny{}
		if c.Flag() {
			l := mc.Sizes(70000)
			n := l[c.Pick(len(l))]
			in["text"], in["id"] = longText(n), uint64(1<<60+1)
			c.Log("text of %d bytes", n)
		} else {
			l := mc.Sizes(1100)
			n := l[c.Pick(len(l))]
			for i := 0; i <= n; i++ {
				in[fmt.Sprintf("k%d", i)] = uint64(1<<60+1) + uint64(i)
			}
			c.Log("%d entries", n+1)
		}
		c.Run().State(c.Trace()[0])
		round(c, in)
	})
	r.Explore(mc.Opt{Part: "damaged"}, func(c *mc.C) {
		in := []values.MapAny{{"after": uint64(1234567)}, {"a": "b", "c": uint64(1) << 62}}[c.Pick(2)]
		s := xdb.EncodeCursor(in)
		k := c.Pick(len(s))
		d := s[:k]
		if c.Flag() {
			d = s[:k] + string([]byte{" +/=!*"[c.Pick(6)]}) + s[k+1:]
		}
		if k == 0 && c.Flag() {
			// an encoding of something else, or of a position and more
			js, err := base64.RawURLEncoding.DecodeString(s)
			if err != nil {
				panic(err)
			}
			t := string(js)
			l := []string{t + `"x"`, t + "{}", t + t, t + "null", t + "x", t + "}", t + ",", t + "\x00", "[" + t + "]", "x" + t, "," + t,
				`"` + "a" + `"`, "[]", "5", "true", t[:len(t)-1] + ",}", t[:len(t)-1] + `,"z":}`, t[:len(t)-1] + `,"z"}`, strings.ReplaceAll(t, ":", "="), strings.ReplaceAll(t, `"`, "'")}
			d = base64.RawURLEncoding.EncodeToString([]byte(l[c.Pick(len(l))]))
		}
		c.Log("%q", d)
		c.Step()
		out, err := xdb.DecodeCursor(d)
		if err == nil {
			c.Fail("damaged cursor accepted", "%q decoded to %v", d, out)
		}
		c.Run().Outcome(fmt.Sprint(err != nil))
		c.Run().State(d)
	})
}
