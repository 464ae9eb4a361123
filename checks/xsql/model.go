package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/effective-security/xdb/xsql"
)

// The reference model of a statement: named clauses in their SQL order, each with its items in the
// order they were added, and raw clauses where they were put. Nothing of it is shared between
// statements and nothing is cached.

type part struct {
	sep  string
	text string // with ? for arguments and \? for a question mark
	args []any
}

type clause struct {
	kind  string
	rank  float64
	head  part
	items []part
}

type model struct {
	cl   []*clause
	cur  *clause
	dest []any
	// bulk insert
	table  string
	insert bool
	fields []string
	rows   [][]part
}

var ranks = map[string]float64{"with": 1, "insert": 2, "delete": 5, "update": 6, "set": 7, "select": 8, "from": 10, "where": 11, "group": 12, "having": 13, "union": 14, "order": 15, "limit": 16, "offset": 17, "returning": 18}

var heads = map[string]string{"with": "WITH", "delete": "DELETE FROM", "update": "UPDATE", "set": "SET", "select": "SELECT", "from": "FROM", "where": "WHERE", "group": "GROUP BY", "having": "HAVING", "order": "ORDER BY", "returning": "RETURNING"}

var seps = map[string]string{"where": " AND ", "having": " AND "}

func (m *model) find(kind string) *clause {
	for _, c := range m.cl {
		if c.kind == kind {
			return c
		}
	}
	return nil
}

func (m *model) sorted() []*clause {
	sort.SliceStable(m.cl, func(i, j int) bool { return m.cl[i].rank < m.cl[j].rank })
	return m.cl
}

func (m *model) lastRank() float64 {
	if len(m.cl) == 0 {
		return 0
	}
	m.sorted()
	return m.cl[len(m.cl)-1].rank
}

func (m *model) at(kind string) *clause {
	c := m.find(kind)
	if c == nil {
		c = &clause{kind: kind, rank: ranks[kind], head: part{text: heads[kind]}}
		m.cl = append(m.cl, c)
	}
	m.cur = c
	return c
}

func (m *model) add(kind, sep, text string, args []any) {
	c := m.at(kind)
	if sep == "" {
		sep = ", "
		if s, ok := seps[kind]; ok {
			sep = s
		}
	}
	c.items = append(c.items, part{sep, text, append([]any{}, args...)})
}

func (m *model) single(kind, text string, arg any) {
	c := m.at(kind)
	c.head = part{text: text, args: []any{arg}}
}

func (m *model) raw(text string, args []any) {
	last := m.lastRank()
	if m.insert && last < ranks["insert"] {
		last = ranks["insert"]
	}
	c := &clause{kind: fmt.Sprint("raw", len(m.cl)), rank: last + 1.0/1024, head: part{text: text, args: append([]any{}, args...)}}
	if last == 0 {
		c.rank = 0.5
	}
	m.cl = append(m.cl, c)
	m.cur = c
}

func (m *model) expr(text string, args []any) {
	if m.cur.kind == "fields" {
		// columns of an insert: no placeholders there
		m.fields = append(m.fields, text)
		return
	}
	m.cur.items = append(m.cur.items, part{", ", text, append([]any{}, args...)})
}

func (m *model) sub(prefix, suffix string, q *model) {
	sep := ", "
	if m.cur.kind == "where" {
		sep = " AND "
	}
	t, a := q.render()
	m.cur.items = append(m.cur.items, part{sep, prefix + t + suffix, a})
}

func (m *model) union(all bool, q *model) {
	last := m.lastRank()
	r := ranks["union"]
	if last >= r {
		r = last + 1.0/1024
	}
	t, a := q.render()
	h := "UNION "
	if all {
		h = "UNION ALL "
	}
	c := &clause{kind: fmt.Sprint("union", len(m.cl)), rank: r, head: part{text: h + t, args: a}}
	m.cl = append(m.cl, c)
	m.cur = c
}

// render gives the text with ? and \?, and the arguments in the order of the placeholders.
func (m *model) render() (string, []any) {
	var out []string
	var args []any
	put := func(c *clause) {
		s := c.head.text
		args = append(args, c.head.args...)
		for i, it := range c.items {
			switch {
			case i > 0:
				s += it.sep
			case s != "":
				s += " "
			}
			s += it.text
			args = append(args, it.args...)
		}
		out = append(out, s)
	}
	inserted := !m.insert
	ins := func() {
		inserted = true
		var rows []string
		for _, r := range m.rows {
			var l []string
			for _, p := range r {
				l = append(l, p.text)
				args = append(args, p.args...)
			}
			rows = append(rows, "( "+strings.Join(l, ", ")+" )")
		}
		if len(rows) == 0 {
			rows = []string{"( )"}
		}
		out = append(out, "INSERT INTO "+m.table+" ( "+strings.Join(m.fields, ", ")+" ) VALUES "+strings.Join(rows, ", "))
	}
	for _, c := range m.sorted() {
		if !inserted && c.rank > ranks["insert"] {
			ins()
		}
		put(c)
	}
	if !inserted {
		ins()
	}
	return strings.Join(out, " "), args
}

func (m *model) clone() *model {
	n := *m
	n.cl = nil
	n.cur = nil
	for _, c := range m.cl {
		d := *c
		d.items = append([]part{}, c.items...)
		n.cl = append(n.cl, &d)
		if m.cur == c {
			n.cur = &d
		}
	}
	if m.cur != nil && m.cur.kind == "fields" {
		n.cur = &clause{kind: "fields"}
	}
	n.dest = append([]any{}, m.dest...)
	n.fields = append([]string{}, m.fields...)
	n.rows = nil
	for _, r := range m.rows {
		n.rows = append(n.rows, append([]part{}, r...))
	}
	return &n
}

// sql gives the text for a dialect.
func (m *model) sql(pg bool) string {
	t, _ := m.render()
	if !pg {
		return t
	}
	var b strings.Builder
	n := 0
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '\\' && i+1 < len(t) && t[i+1] == '?':
			b.WriteByte('?')
			i++
		case t[i] == '?':
			n++
			fmt.Fprintf(&b, "$%d", n)
		default:
			b.WriteByte(t[i])
		}
	}
	return b.String()
}

// norm makes layout irrelevant: runs of white space are one space, none beside brackets and commas.
func norm(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	for _, p := range []string{"(", ")", ","} {
		s = strings.ReplaceAll(s, " "+p, p)
		s = strings.ReplaceAll(s, p+" ", p)
	}
	return s
}

func sameArgs(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// stmt is a statement and its model, built together.
type stmt struct {
	q xsql.Builder
	m *model
}

type dialect struct {
	name string
	d    xsql.SQLDialect
	pg   bool
}

var dialects = []dialect{{"default", xsql.NoDialect, false}, {"postgres", xsql.Postgres, true}, {"sqlserver", xsql.SQLServer, false}}

func (s *stmt) check(pg bool) string {
	want := norm(s.m.sql(pg))
	_, wa := s.m.render()
	if got := norm(s.q.String()); got != want {
		return fmt.Sprintf("SQL is %q, expected %q", got, want)
	}
	if !sameArgs(s.q.Args(), wa) {
		return fmt.Sprintf("arguments of %q are %v, expected %v", s.q.String(), s.q.Args(), wa)
	}
	if !sameArgs(s.q.Dest(), s.m.dest) {
		return fmt.Sprintf("targets are %v, expected %v", s.q.Dest(), s.m.dest)
	}
	return ""
}

func starter(d xsql.SQLDialect, kind, text string, args ...any) *stmt {
	s := &stmt{m: &model{}}
	switch kind {
	case "from":
		s.q = d.From(text, args...)
		s.m.add("from", "", text, args)
	case "select":
		s.q = d.Select(text, args...)
		s.m.add("select", "", text, args)
	case "update":
		s.q = d.Update(text)
		s.m.add("update", "", text, nil)
	case "delete":
		s.q = d.DeleteFrom(text)
		s.m.add("delete", "", text, nil)
	case "insert":
		s.q = d.InsertInto(text)
		s.m.insert, s.m.table = true, text
		s.m.cur = &clause{kind: "fields"}
	case "new":
		s.q = d.New(text, args...)
		c := s.m.at("select")
		c.head = part{text: text, args: args}
	}
	return s
}

func (s *stmt) Select(t string, a ...any) *stmt {
	s.q.Select(t, a...)
	s.m.add("select", "", t, a)
	return s
}
func (s *stmt) From(t string, a ...any) *stmt {
	s.q.From(t, a...)
	s.m.add("from", "", t, a)
	return s
}
func (s *stmt) Where(t string, a ...any) *stmt {
	s.q.Where(t, a...)
	s.m.add("where", "", t, a)
	return s
}
func (s *stmt) Having(t string, a ...any) *stmt {
	s.q.Having(t, a...)
	s.m.add("having", "", t, a)
	return s
}
func (s *stmt) In(a ...any) *stmt {
	s.q.In(a...)
	l := strings.Repeat(",?", len(a))
	if l != "" {
		l = l[1:]
	}
	s.m.add("where", " ", "IN ("+l+")", a)
	return s
}
func (s *stmt) GroupBy(t string) *stmt { s.q.GroupBy(t); s.m.add("group", "", t, nil); return s }
func (s *stmt) OrderBy(t ...string) *stmt {
	s.q.OrderBy(t...)
	s.m.add("order", "", strings.Join(t, ", "), nil)
	return s
}
func (s *stmt) Returning(t string) *stmt {
	s.q.Returning(t)
	s.m.add("returning", "", t, nil)
	return s
}
func (s *stmt) Limit(v any) *stmt  { s.q.Limit(v); s.m.single("limit", "LIMIT ?", v); return s }
func (s *stmt) Offset(v any) *stmt { s.q.Offset(v); s.m.single("offset", "OFFSET ?", v); return s }
func (s *stmt) Paginate(p, n int) *stmt {
	s.q.Paginate(p, n)
	p, n = max(p, 1), max(n, 1)
	if p > 1 {
		s.m.single("offset", "OFFSET ?", (p-1)*n)
	}
	s.m.single("limit", "LIMIT ?", n)
	return s
}
func (s *stmt) Join(kind int, t, on string) *stmt {
	switch kind {
	case 0:
		s.q.Join(t, on)
	case 1:
		s.q.LeftJoin(t, on)
	case 2:
		s.q.RightJoin(t, on)
	case 3:
		s.q.FullJoin(t, on)
	}
	s.m.add("from", " ", []string{"", "LEFT ", "RIGHT ", "FULL "}[kind]+"JOIN "+t+" ON ("+on+")", nil)
	return s
}
func (s *stmt) Clause(t string, a ...any) *stmt { s.q.Clause(t, a...); s.m.raw(t, a); return s }
func (s *stmt) Expr(t string, a ...any) *stmt   { s.q.Expr(t, a...); s.m.expr(t, a); return s }
func (s *stmt) Sub(p, x string, o *stmt) *stmt {
	s.m.sub(p, x, o.m)
	s.q.SubQuery(p, x, o.q)
	return s
}
func (s *stmt) Union(all bool, o *stmt) *stmt { s.m.union(all, o.m); s.q.Union(all, o.q); return s }
func (s *stmt) With(n string, o *stmt) *stmt {
	s.m.at("with")
	s.m.sub(n+" AS (", ")", o.m)
	s.q.With(n, o.q)
	return s
}
func (s *stmt) Set(f string, v any) *stmt { s.q.Set(f, v); s.mset(f, "?", []any{v}); return s }
func (s *stmt) SetExpr(f, e string, a ...any) *stmt {
	s.q.SetExpr(f, e, a...)
	s.mset(f, e, a)
	return s
}
func (s *stmt) mset(f, e string, a []any) {
	if s.m.insert {
		if len(s.m.rows) == 0 {
			s.m.rows = [][]part{nil}
		}
		s.m.fields = append(s.m.fields, f)
		s.m.rows[0] = append(s.m.rows[0], part{text: e, args: append([]any{}, a...)})
		s.m.cur = nil
	} else if s.m.find("update") != nil {
		s.m.add("set", "", f+"="+e, a)
	}
}

type row struct {
	s *stmt
	r xsql.Row
	n int
}

func (s *stmt) NewRow() *row {
	s.m.rows = append(s.m.rows, nil)
	s.m.cur = nil
	return &row{s, s.q.NewRow(), len(s.m.rows) - 1}
}
func (r *row) setExpr(f, e string, chain bool, a ...any) {
	x := r.r.SetExpr(f, e, a...)
	if chain {
		r.r = x
	}
	if r.n == 0 {
		r.s.m.fields = append(r.s.m.fields, f)
	}
	r.s.m.rows[r.n] = append(r.s.m.rows[r.n], part{text: e, args: append([]any{}, a...)})
}
func (r *row) set(f string, v any, chain bool) {
	x := r.r.Set(f, v)
	if chain {
		r.r = x
	}
	if r.n == 0 {
		r.s.m.fields = append(r.s.m.fields, f)
	}
	r.s.m.rows[r.n] = append(r.s.m.rows[r.n], part{text: "?", args: []any{v}})
}
func (s *stmt) To(d ...any) *stmt { s.q.To(d...); s.m.dest = append(s.m.dest, d...); return s }

func (s *stmt) Clone() *stmt { return &stmt{s.q.Clone(), s.m.clone()} }
