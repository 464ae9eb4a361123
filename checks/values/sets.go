package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif.local/vlib/mc"

	"github.com/effective-security/xdb"
)

// sets merges metadata and sets of values one after the other and reads them in every way in between.
func sets(r *mc.Run) {
	keys := []string{"b", "a", "é"}
	sorted := func(m map[string]string) (l []string) {
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return
	}
	r.Explore(mc.Opt{Part: "metadata"}, func(c *mc.C) {
		pick := func() map[string]string {
			if c.Flag() {
				return nil
			}
			m := map[string]string{}
			for _, k := range keys {
				if v := c.Pick(3); v > 0 {
					m[k] = []string{"", "1", ""}[v]
				}
			}
			return m
		}
		copied := func(m map[string]string) xdb.Metadata {
			if m == nil {
				return nil
			}
			n := xdb.Metadata{}
			for k, v := range m {
				n[k] = v
			}
			return n
		}
		want := pick()
		m := copied(want)
		for i, n := 0, mc.Q(r, 2, 3); i <= n; i++ {
			got := m
			l := sorted(want)
			var pairs []string
			for _, k := range l {
				pairs = append(pairs, k, want[k])
			}
			if fmt.Sprintf("%q", got.OrderedKeys()) != fmt.Sprintf("%q", l) {
				c.Fail("ordered keys", "%q of %q", got.OrderedKeys(), want)
			}
			if fmt.Sprintf("%q", got.OrderedPairs()) != fmt.Sprintf("%q", pairs) {
				c.Fail("ordered pairs", "%q of %q", got.OrderedPairs(), want)
			}
			u := append([]string(nil), got.Keys()...)
			sort.Strings(u)
			if fmt.Sprintf("%q", u) != fmt.Sprintf("%q", l) {
				c.Fail("keys", "%q of %q", got.Keys(), want)
			}
			for stop := 0; stop <= len(l); stop++ {
				var seen, some []string
				got.RangeOrdered(func(k, v string) bool {
					seen = append(seen, k, v)
					return len(seen) < 2*stop
				})
				w := pairs
				if n := 2 * max(stop, 1); n < len(w) {
					w = w[:n]
				}
				got.Range(func(k, v string) bool {
					if want[k] != v {
						c.Fail("range", "%q %q of %q", k, v, want)
					}
					some = append(some, k)
					return len(some) < stop
				})
				if strings.Join(seen, "|") != strings.Join(w, "|") {
					c.Fail("range in order", "%q of %q, stopped at %d", seen, want, stop)
				}
				if 2*len(some) != len(w) {
					c.Fail("range", "%q of %q, stopped at %d", some, want, stop)
				}
			}
			if i == n {
				break
			}
			k := c.Pick(3)
			if k == 0 {
				break
			}
			c.Step()
			if k == 1 { // with itself
				m.Merge(m)
				c.Log("%q with itself", want)
			} else {
				src := pick()
				s := copied(src)
				c.Log("%q with %q", want, src)
				if p := m.Merge(s); p != &m {
					c.Fail("merge of metadata", "gives another value")
				}
				if want == nil {
					want = map[string]string{}
				}
				for k, v := range src {
					want[k] = v
				}
				if len(s) != len(src) || len(s) > 0 && !reflect.DeepEqual(map[string]string(s), src) {
					c.Fail("source changed", "%q became %q", src, s)
				}
				if s != nil {
					// later changes of the source do not show
					s["b"], s["new"] = "later", "later"
				}
			}
			if len(m) != len(want) || len(m) > 0 && !reflect.DeepEqual(map[string]string(m), want) {
				c.Fail("merge of metadata", "%q, expected %q", m, want)
			}
		}
		c.Run().State(fmt.Sprint(want))
	})
	sizes := mc.Sizes(mc.Q(r, 530, 2100))
	r.Explore(mc.Opt{Part: "sizes", Procs: true}, func(c *mc.C) {
		n := sizes[len(sizes)-1-c.Pick(len(sizes))]
		m := sizes[len(sizes)-1-c.Pick(len(sizes))]
		both := min(n, m) / 2 // keys of the source that the destination has too
		long := strings.Repeat("k", []int{0, 300}[c.Pick(2)])
		key := func(i int) string { return fmt.Sprintf("%s%d", long, i*7919%10007) }
		d, src, want := xdb.Metadata{}, xdb.Metadata{}, map[string]string{}
		dk, sk, wk := xdb.KVSet{}, xdb.KVSet{}, map[string]string{}
		for i := 0; i < n; i++ {
			k := key(i)
			d[k], want[k] = "d"+k, "d"+k
			dk[k], wk[k] = []string{"d", k}, "d"+k
		}
		for i := n - both; i < n-both+m; i++ {
			k := key(i)
			src[k], want[k] = "s"+k, "s"+k
			sk[k], wk[k] = []string{"s", k}, "s"+k
		}
		c.Step()
		c.Log("%d entries with %d, %d of them in both", n, m, both)
		d.Merge(src)
		dk.Merge(sk)
		if len(src) != m || len(sk) != m {
			c.Fail("source changed", "%d and %d entries instead of %d", len(src), len(sk), m)
		}
		if !reflect.DeepEqual(map[string]string(d), want) {
			c.Fail("merge of metadata", "%d entries with %d give %d instead of %d", n, m, len(d), len(want))
		}
		gk := map[string]string{}
		for k, v := range dk {
			gk[k] = strings.Join(v, "")
		}
		if !reflect.DeepEqual(gk, wk) {
			c.Fail("merge of sets", "%d entries with %d give %d instead of %d", n, m, len(gk), len(wk))
		}
		l := sorted(want)
		if !reflect.DeepEqual(append([]string{}, d.OrderedKeys()...), append([]string{}, l...)) {
			c.Fail("ordered keys", "of %d entries", len(want))
		}
		if u := append([]string{}, d.Keys()...); true {
			sort.Strings(u)
			if !reflect.DeepEqual(u, append([]string{}, l...)) {
				c.Fail("keys", "of %d entries", len(want))
			}
		}
		p := d.OrderedPairs()
		seen := 0
		d.RangeOrdered(func(k, v string) bool {
			if seen >= len(l) || k != l[seen] || v != want[k] || len(p) != 2*len(l) || p[2*seen] != k || p[2*seen+1] != v {
				c.Fail("range in order", "entry %d of %d", seen, len(l))
				return false
			}
			seen++
			return true
		})
		if seen != len(l) {
			c.Fail("range in order", "%d of %d entries", seen, len(l))
		}
		c.Run().State(fmt.Sprint(n, m, len(long)))
	})
	r.Explore(mc.Opt{Part: "sets of values"}, func(c *mc.C) {
		vals := [][]string{nil, {}, {"1"}, {"2", "1"}}
		pick := func() xdb.KVSet {
			if c.Flag() {
				return nil
			}
			m := xdb.KVSet{}
			for _, k := range keys[:2] {
				if v := c.Pick(len(vals) + 1); v > 0 {
					m[k] = append(vals[v-1][:0:0], vals[v-1]...)
				}
			}
			return m
		}
		m := pick()
		want := map[string]string{}
		for k, v := range m {
			want[k] = fmt.Sprintf("%q", v)
		}
		for i, n := 0, c.Pick(mc.Q(r, 3, 4)); i < n; i++ {
			s := pick()
			before := fmt.Sprintf("%q", s)
			c.Log("%q with %s", want, before)
			c.Step()
			for k, v := range s {
				want[k] = fmt.Sprintf("%q", v)
			}
			if p := m.Merge(s); p != &m {
				c.Fail("merge of sets", "gives another value")
			}
			if a := fmt.Sprintf("%q", s); a != before {
				c.Fail("source changed", "%s became %s", before, a)
			}
			if s != nil {
				s["new"] = []string{"later"}
			}
			got := map[string]string{}
			for k, v := range m {
				got[k] = fmt.Sprintf("%q", v)
			}
			if !reflect.DeepEqual(got, want) {
				c.Fail("merge of sets", "%q, expected %q", got, want)
			}
		}
		c.Run().State(fmt.Sprint(want))
	})
}
