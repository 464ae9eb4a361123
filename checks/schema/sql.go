package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

// An evaluator of the queries about the catalogue: the text that is sent is parsed and evaluated over
// the system tables of the catalogue. What it does not know is unsupported, never guessed.

type unsupported struct{ what string }

func dunno(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- tokens

type lexeme struct {
	k byte // i identifier, q quoted identifier, s string, n number, p parameter, o operator, 0 end
	v string
}

func lex(s string) (l []lexeme) {
	r := []rune(s)
	for i := 0; i < len(r); {
		c := r[i]
		until := func(end rune) string {
			var b strings.Builder
			for i++; i < len(r); i++ {
				if r[i] == end {
					if end != ']' && i+1 < len(r) && r[i+1] == end {
						i++
					} else {
						i++
						return b.String()
					}
				}
				b.WriteRune(r[i])
			}
			dunno("unterminated text")
			return ""
		}
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '-' && i+1 < len(r) && r[i+1] == '-':
			for i < len(r) && r[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(r) && r[i+1] == '*':
			for i += 2; i+1 < len(r) && !(r[i] == '*' && r[i+1] == '/'); i++ {
			}
			i += 2
		case c == '\'':
			l = append(l, lexeme{'s', until('\'')})
		case (c == 'N' || c == 'n') && i+1 < len(r) && r[i+1] == '\'':
			i++
			l = append(l, lexeme{'s', until('\'')})
		case c == '"':
			l = append(l, lexeme{'q', until('"')})
		case c == '[' && len(l) > 0 && (l[len(l)-1].k == 'i' && !keyword[strings.ToLower(l[len(l)-1].v)] || l[len(l)-1].k == 'o' && (l[len(l)-1].v == ")" || l[len(l)-1].v == "]")):
			l = append(l, lexeme{'o', "["})
			i++
		case c == '[':
			l = append(l, lexeme{'q', until(']')})
		case c == '_' || unicode.IsLetter(c):
			j := i
			for j < len(r) && (r[j] == '_' || r[j] == '$' || unicode.IsLetter(r[j]) || unicode.IsDigit(r[j])) {
				j++
			}
			l = append(l, lexeme{'i', string(r[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(r) && unicode.IsDigit(r[j]) {
				j++
			}
			l = append(l, lexeme{'n', string(r[i:j])})
			i = j
		case (c == '$' || c == '@') && i+1 < len(r):
			j := i + 1
			for j < len(r) && (r[j] == '_' || unicode.IsLetter(r[j]) || unicode.IsDigit(r[j])) {
				j++
			}
			l = append(l, lexeme{'p', string(r[i:j])})
			i = j
		default:
			if i+1 < len(r) {
				if two := string(r[i : i+2]); two == "<>" || two == "!=" || two == "<=" || two == ">=" || two == "||" || two == "::" {
					l = append(l, lexeme{'o', two})
					i += 2
					continue
				}
			}
			if !strings.ContainsRune("(),.=<>+-*;]", c) {
				dunno("character %q", c)
			}
			l = append(l, lexeme{'o', string(c)})
			i++
		}
	}
	return append(l, lexeme{})
}

var keyword = map[string]bool{}

func init() {
	for _, w := range strings.Fields("select distinct from where group by having order asc desc nulls first last limit offset top as on join inner left right full outer cross apply lateral and or not in is null like exists between any some all case when then else end for xml path with ordinality union except intersect array true false cast within over using natural escape similar collate option") {
		keyword[w] = true
	}
}

// ---- tree

type expr interface{}

type (
	lit   struct{ v any }
	param struct{ name string }
	ref   struct{ table, col string }
	op    struct {
		op   string
		l, r expr
	}
	inList struct {
		e    expr
		list []expr
		q    *query
		not  bool
	}
	isNull struct {
		e   expr
		not bool
	}
	exists struct{ q *query }
	scalar struct {
		q     *query
		array bool
	}
	caseOf struct {
		of    expr
		when  [][2]expr
		other expr
	}
	call_ struct {
		name     string
		args     []expr
		order    []orderBy
		distinct bool
		star     bool
	}
	subscript struct{ e, i expr }
)

type orderBy struct {
	e    expr
	desc bool
}

type item struct {
	e     expr
	alias string
	star  string // "*" or an alias
}

type source struct {
	name    []string
	q       *query
	fn      *call_
	ord     bool
	alias   string
	cols    []string
	join    string // cross, inner, left
	on      expr
	using   []string
	lateral bool
}

type query struct {
	distinct bool
	items    []item
	from     []source
	where    []expr
	group    []expr
	having   expr
	order    []orderBy
	xml      bool
	xmlType  bool
	xmlText  bool
	limit    int
	union    *query
	all      bool
	merged   map[string]bool // columns that joins have in common
}

type parser struct {
	t []lexeme
	i int
}

func (p *parser) peek() lexeme { return p.t[p.i] }
func (p *parser) next() lexeme { t := p.t[p.i]; p.i++; return t }
func (p *parser) isWord(w ...string) bool {
	for j, x := range w {
		if p.i+j >= len(p.t) || p.t[p.i+j].k != 'i' || !strings.EqualFold(p.t[p.i+j].v, x) {
			return false
		}
	}
	return true
}
func (p *parser) word(w ...string) bool {
	if p.isWord(w...) {
		p.i += len(w)
		return true
	}
	return false
}
func (p *parser) isOp(o string) bool { return p.peek().k == 'o' && p.peek().v == o }
func (p *parser) oper(o string) bool {
	if p.isOp(o) {
		p.i++
		return true
	}
	return false
}
func (p *parser) need(o string) {
	if !p.oper(o) {
		dunno("%q where %q is expected", p.peek().v, o)
	}
}
func (p *parser) needWord(w string) {
	if !p.word(w) {
		dunno("%q where %q is expected", p.peek().v, w)
	}
}

func (p *parser) name() string {
	t := p.next()
	if t.k == 'q' || t.k == 'i' && !keyword[strings.ToLower(t.v)] {
		return t.v
	}
	dunno("%q is not a name", t.v)
	return ""
}

func (p *parser) isName() bool {
	t := p.peek()
	return t.k == 'q' || t.k == 'i' && !keyword[strings.ToLower(t.v)]
}

func parse(s string) *query {
	p := &parser{t: lex(s)}
	q := p.query()
	p.oper(";")
	if p.peek().k != 0 {
		dunno("%q at the end", p.peek().v)
	}
	return q
}

func (p *parser) query() *query {
	q := &query{limit: -1}
	p.needWord("select")
	q.distinct = p.word("distinct")
	p.word("all")
	for {
		it := item{}
		switch {
		case p.oper("*"):
			it.star = "*"
		case p.isName() && p.t[p.i+1].v == "." && p.t[p.i+2].v == "*":
			it.star = p.name()
			p.i += 2
		default:
			it.e = p.expr()
			if p.word("as") {
				t := p.next()
				it.alias = t.v
			} else if p.isName() {
				it.alias = p.name()
			}
		}
		q.items = append(q.items, it)
		if !p.oper(",") {
			break
		}
	}
	if p.word("from") {
		q.from = append(q.from, p.source("cross"))
		for {
			switch {
			case p.oper(","):
				q.from = append(q.from, p.source("cross"))
				continue
			case p.word("inner", "join"), p.word("join"):
				s := p.source("inner")
				p.condition(q, &s)
				q.from = append(q.from, s)
				continue
			case p.word("left", "outer", "join"), p.word("left", "join"):
				s := p.source("left")
				p.condition(q, &s)
				q.from = append(q.from, s)
				continue
			case p.word("cross", "join"):
				q.from = append(q.from, p.source("cross"))
				continue
			case p.word("cross", "apply"):
				s := p.source("cross")
				s.lateral = true
				q.from = append(q.from, s)
				continue
			case p.word("outer", "apply"):
				s := p.source("left")
				s.lateral, s.on = true, lit{true}
				q.from = append(q.from, s)
				continue
			}
			break
		}
	}
	if p.word("where") {
		q.where = conjuncts(p.expr())
	}
	if p.word("group", "by") {
		q.group = p.list()
	}
	if p.word("having") {
		q.having = p.expr()
	}
	if p.isWord("union") {
		p.i++
		q.all = p.word("all")
		q.union = p.query()
		if q.union.order != nil || q.union.limit >= 0 {
			dunno("order of a union")
		}
		return q
	}
	q.order = p.orderBy()
	if p.word("for", "xml", "path") {
		p.need("(")
		if t := p.next(); t.k != 's' || t.v != "" {
			dunno("elements")
		}
		p.need(")")
		q.xml = true
		if p.oper(",") {
			p.needWord("type")
			q.xmlType = true
		}
	}
	if p.word("limit") {
		n, err := strconv.Atoi(p.next().v)
		if err != nil {
			dunno("limit")
		}
		q.limit = n
	}
	return q
}

// condition reads what a join is on.
func (p *parser) condition(q *query, s *source) {
	if !p.word("using") {
		p.needWord("on")
		s.on = p.expr()
		return
	}
	p.need("(")
	for {
		n := strings.ToLower(p.name())
		if q.merged == nil {
			q.merged = map[string]bool{}
		}
		q.merged[n] = true
		s.using = append(s.using, n)
		if !p.oper(",") {
			break
		}
	}
	p.need(")")
}

func conjuncts(e expr) []expr {
	if o, ok := e.(op); ok && o.op == "and" {
		return append(conjuncts(o.l), conjuncts(o.r)...)
	}
	return []expr{e}
}

func (p *parser) orderBy() (l []orderBy) {
	if !p.word("order", "by") {
		return nil
	}
	for {
		o := orderBy{e: p.expr()}
		if p.word("desc") {
			o.desc = true
		} else {
			p.word("asc")
		}
		if p.isWord("nulls") {
			dunno("order of nulls")
		}
		l = append(l, o)
		if !p.oper(",") {
			return l
		}
	}
}

func (p *parser) list() (l []expr) {
	for {
		l = append(l, p.expr())
		if !p.oper(",") {
			return l
		}
	}
}

func (p *parser) source(join string) source {
	s := source{join: join}
	s.lateral = p.word("lateral")
	if p.oper("(") {
		if !p.isWord("select") {
			dunno("joins in parentheses")
		}
		s.q = p.query()
		p.need(")")
	} else {
		s.name = append(s.name, p.name())
		for p.oper(".") {
			s.name = append(s.name, p.name())
		}
		if p.isOp("(") {
			p.need("(")
			f := &call_{name: strings.ToLower(s.name[len(s.name)-1])}
			if !p.isOp(")") {
				f.args = p.list()
			}
			p.need(")")
			s.fn, s.name, s.lateral = f, nil, true
			s.ord = p.word("with", "ordinality")
		}
	}
	if p.word("as") || p.isName() {
		s.alias = p.name()
		if p.oper("(") {
			for {
				s.cols = append(s.cols, p.name())
				if !p.oper(",") {
					break
				}
			}
			p.need(")")
		}
	}
	if p.isWord("with") {
		dunno("hints")
	}
	return s
}

func (p *parser) expr() expr {
	e := p.and()
	for p.word("or") {
		e = op{"or", e, p.and()}
	}
	return e
}

func (p *parser) and() expr {
	e := p.not()
	for p.word("and") {
		e = op{"and", e, p.not()}
	}
	return e
}

func (p *parser) not() expr {
	if p.word("not") {
		return op{"not", p.not(), nil}
	}
	return p.comparison()
}

func (p *parser) comparison() expr {
	e := p.sum()
	for {
		switch t := p.peek(); {
		case t.k == 'o' && (t.v == "=" || t.v == "<>" || t.v == "!=" || t.v == "<" || t.v == ">" || t.v == "<=" || t.v == ">="):
			p.i++
			o := t.v
			if o == "!=" {
				o = "<>"
			}
			if p.word("any") || p.word("some") {
				if o != "=" {
					dunno("%s any", o)
				}
				p.need("(")
				if p.isWord("select") {
					e = inList{e: e, q: p.query()}
				} else {
					e = op{"any", e, p.expr()}
				}
				p.need(")")
				continue
			}
			if p.isWord("all") {
				dunno("all")
			}
			e = op{o, e, p.sum()}
		case p.word("is"):
			not := p.word("not")
			switch {
			case p.word("null"):
				e = isNull{e, not}
			case p.word("true"):
				e = op{"istrue", e, nil}
				if not {
					e = op{"not", e, nil}
				}
			case p.word("false"):
				e = op{"isfalse", e, nil}
				if not {
					e = op{"not", e, nil}
				}
			default:
				dunno("is %s", p.peek().v)
			}
		case p.isWord("in") || p.isWord("not", "in"):
			not := p.word("not")
			p.i++
			p.need("(")
			x := inList{e: e, not: not}
			if p.isWord("select") {
				x.q = p.query()
			} else {
				x.list = p.list()
			}
			p.need(")")
			e = x
		case p.isWord("like") || p.isWord("not", "like"):
			not := p.word("not")
			p.i++
			e = op{"like", e, p.sum()}
			if not {
				e = op{"not", e, nil}
			}
			if p.isWord("escape") {
				dunno("escape")
			}
		case p.word("between"):
			lo := p.sum()
			p.needWord("and")
			hi := p.sum()
			e = op{"and", op{">=", e, lo}, op{"<=", e, hi}}
		default:
			return e
		}
	}
}

func (p *parser) sum() expr {
	e := p.primary()
	for {
		switch {
		case p.oper("+"):
			e = op{"+", e, p.primary()}
		case p.oper("-"):
			e = op{"-", e, p.primary()}
		case p.oper("||"):
			e = op{"||", e, p.primary()}
		default:
			return e
		}
	}
}

func (p *parser) primary() expr {
	e := p.atom()
	for {
		switch {
		case p.oper("::"):
			p.typ()
		case p.isOp(".") && strings.EqualFold(p.t[p.i+1].v, "value"):
			// the text of XML
			q, ok := e.(scalar)
			p.i += 2
			p.need("(")
			path := p.next()
			p.need(",")
			p.next()
			p.need(")")
			if !ok || !q.q.xmlType || path.k != 's' || path.v != "." {
				dunno("value of XML")
			}
			c := *q.q
			c.xml, c.xmlType, c.xmlText = false, false, true
			e = scalar{q: &c}
		case p.isOp("[") && p.i > 0:
			p.need("[")
			e = subscript{e, p.sum()}
			p.need("]")
		default:
			return e
		}
	}
}

// typ skips the name of a type; the values stay what they are.
func (p *parser) typ() {
	p.name()
	if p.oper(".") {
		p.name()
	}
	if p.oper("(") {
		p.next()
		p.need(")")
	}
	for p.oper("[") {
		p.need("]")
	}
}

func (p *parser) atom() expr {
	t := p.peek()
	switch t.k {
	case 's':
		p.i++
		return lit{t.v}
	case 'n':
		p.i++
		n, err := strconv.ParseInt(t.v, 10, 64)
		if err != nil {
			dunno("number %s", t.v)
		}
		return lit{n}
	case 'p':
		p.i++
		return param{t.v}
	case 'o':
		if p.oper("(") {
			if p.isWord("select") {
				q := p.query()
				p.need(")")
				return scalar{q: q}
			}
			e := p.expr()
			p.need(")")
			return e
		}
		if p.oper("-") {
			return op{"-", lit{int64(0)}, p.primary()}
		}
	}
	switch {
	case p.word("null"):
		return lit{nil}
	case p.word("true"):
		return lit{true}
	case p.word("false"):
		return lit{false}
	case p.word("exists"):
		p.need("(")
		q := p.query()
		p.need(")")
		return exists{q}
	case p.isWord("array"):
		p.i++
		p.need("(")
		q := p.query()
		p.need(")")
		return scalar{q: q, array: true}
	case p.word("cast"):
		p.need("(")
		e := p.expr()
		p.needWord("as")
		p.typ()
		p.need(")")
		return e
	case p.word("case"):
		c := caseOf{}
		if !p.isWord("when") {
			c.of = p.expr()
		}
		for p.word("when") {
			w := p.expr()
			p.needWord("then")
			c.when = append(c.when, [2]expr{w, p.expr()})
		}
		if p.word("else") {
			c.other = p.expr()
		} else {
			c.other = lit{nil}
		}
		p.needWord("end")
		return c
	case p.isWord("left") || p.isWord("right"):
		dunno(p.peek().v)
	}
	n := p.name()
	if p.isOp("(") {
		return p.call(n)
	}
	if p.oper(".") {
		m := p.name()
		if p.isOp("(") { // of a schema
			if !strings.EqualFold(n, "pg_catalog") && !strings.EqualFold(n, "sys") {
				dunno("%s.%s()", n, m)
			}
			return p.call(m)
		}
		if p.isOp(".") {
			dunno("%s.%s.", n, m)
		}
		return ref{strings.ToLower(n), strings.ToLower(m)}
	}
	return ref{"", strings.ToLower(n)}
}

func (p *parser) call(n string) expr {
	f := call_{name: strings.ToLower(n)}
	p.need("(")
	switch {
	case p.oper("*"):
		f.star = true
	case !p.isOp(")"):
		f.distinct = p.word("distinct")
		f.args = p.list()
		f.order = p.orderBy()
	}
	p.need(")")
	if p.word("within", "group") {
		p.need("(")
		f.order = p.orderBy()
		p.need(")")
	}
	if p.isWord("over") || p.isWord("filter") {
		dunno(p.peek().v)
	}
	if aggregates[f.name] == 0 && !functions[f.name] {
		dunno("function %s", f.name)
	}
	return f
}

var aggregates = map[string]int{"array_agg": 1, "string_agg": 2, "count": 1, "min": 1, "max": 1, "bool_or": 1, "bool_and": 1}
var functions = map[string]bool{"array_to_string": true, "coalesce": true, "isnull": true, "lower": true, "upper": true, "substring": true, "len": true, "length": true,
	"schema_name": true, "schema_id": true, "array_position": true, "stuff": true, "concat": true, "object_id": true, "array_length": true, "nullif": true, "trim": true, "rtrim": true, "replace": true, "quote_ident": true}

// ---- evaluation

type sysTable struct {
	cols []string
	rows [][]any
}

// frame is a row of one of the sources of a query.
type frame struct {
	alias string
	cols  []string
	row   []any
}

type scope struct {
	frames []frame
	up     *scope
	group  []*scope // of the rows of a group
	items  *query   // for names of the results
	merged map[string]bool
}

type evaluation struct {
	sys     map[string]*sysTable
	params  map[string]any
	reverse bool
	funcs   map[string]func(any) any
}

func (s *scope) find(r ref) (any, bool) {
	for x := s; x != nil; x = x.up {
		n := 0
		var v any
		for i := range x.frames {
			f := &x.frames[i]
			if r.table != "" && f.alias != r.table {
				continue
			}
			for j, c := range f.cols {
				if c == r.col {
					if n > 0 && r.table == "" && x.merged[c] {
						// the first one; no join keeps rows of the second alone
						continue
					}
					v = f.row[j]
					n++
				}
			}
		}
		if n > 1 {
			dunno("%s.%s is ambiguous", r.table, r.col)
		}
		if n == 1 {
			return v, true
		}
	}
	return nil, false
}

func truth(v any) any {
	switch t := v.(type) {
	case nil:
		return nil
	case bool:
		return t
	}
	dunno("%v is not a condition", v)
	return nil
}

func number(v any) any {
	if b, ok := v.(bool); ok {
		if b {
			return int64(1)
		}
		return int64(0)
	}
	return v
}

func compare(a, b any) int {
	if x, ok := a.(bool); ok {
		if y, ok := b.(bool); ok {
			a, b = number(x), number(y)
		} else if y, ok := b.(string); ok && len(y) > 0 {
			a, b = x, strings.EqualFold(y, "t") || strings.EqualFold(y, "true")
			a, b = number(a), number(b)
		}
	}
	a, b = number(a), number(b)
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y)
		}
	}
	dunno("%T is compared with %T", a, b)
	return 0
}

func (e *evaluation) eval(x expr, s *scope) any {
	switch t := x.(type) {
	case lit:
		return t.v
	case param:
		v, ok := e.params[strings.ToLower(t.name)]
		if !ok {
			dunno("parameter %s", t.name)
		}
		return v
	case ref:
		if v, ok := s.find(t); ok {
			return v
		}
		if t.table == "" {
			for y := s; y != nil; y = y.up {
				if y.items != nil {
					for _, it := range y.items.items {
						if it.e != nil && strings.EqualFold(it.alias, t.col) {
							return e.eval(it.e, y)
						}
					}
				}
			}
		}
		dunno("column %s.%s", t.table, t.col)
	case op:
		return e.oper(t, s)
	case isNull:
		return (e.eval(t.e, s) == nil) != t.not
	case inList:
		v := e.eval(t.e, s)
		var l []any
		if t.q != nil {
			for _, row := range e.run(t.q, s).rows {
				if len(row) != 1 {
					dunno("rows in a list")
				}
				l = append(l, row[0])
			}
		} else {
			for _, y := range t.list {
				l = append(l, e.eval(y, s))
			}
		}
		if v == nil && len(l) > 0 {
			return nil
		}
		null := false
		for _, y := range l {
			if y == nil {
				null = true
			} else if compare(v, y) == 0 {
				return !t.not
			}
		}
		if null {
			return nil
		}
		return t.not
	case exists:
		return len(e.run(t.q, s).rows) > 0
	case scalar:
		rows := e.run(t.q, s).rows
		if t.array {
			l := []any{}
			for _, r := range rows {
				l = append(l, r[0])
			}
			return l
		}
		if len(rows) > 1 || len(rows) == 1 && len(rows[0]) != 1 {
			dunno("more than one value")
		}
		if len(rows) == 0 {
			return nil
		}
		return rows[0][0]
	case caseOf:
		for _, w := range t.when {
			if t.of != nil {
				a, b := e.eval(t.of, s), e.eval(w[0], s)
				if a != nil && b != nil && compare(a, b) == 0 {
					return e.eval(w[1], s)
				}
			} else if truth(e.eval(w[0], s)) == true {
				return e.eval(w[1], s)
			}
		}
		return e.eval(t.other, s)
	case subscript:
		l, ok := e.eval(t.e, s).([]any)
		i, ok2 := e.eval(t.i, s).(int64)
		if !ok || !ok2 {
			dunno("element of no array")
		}
		if i < 1 || int(i) > len(l) {
			return nil
		}
		return l[i-1]
	case call_:
		return e.call(t, s)
	}
	dunno("%T", x)
	return nil
}

func (e *evaluation) oper(t op, s *scope) any {
	switch t.op {
	case "and":
		a := truth(e.eval(t.l, s))
		if a == false {
			return false
		}
		b := truth(e.eval(t.r, s))
		if b == false {
			return false
		}
		if a == nil || b == nil {
			return nil
		}
		return true
	case "or":
		a := truth(e.eval(t.l, s))
		if a == true {
			return true
		}
		b := truth(e.eval(t.r, s))
		if b == true {
			return true
		}
		if a == nil || b == nil {
			return nil
		}
		return false
	case "not":
		a := truth(e.eval(t.l, s))
		if a == nil {
			return nil
		}
		return !a.(bool)
	case "istrue":
		return truth(e.eval(t.l, s)) == true
	case "isfalse":
		return truth(e.eval(t.l, s)) == false
	}
	a, b := e.eval(t.l, s), e.eval(t.r, s)
	if a == nil || b == nil {
		return nil
	}
	switch t.op {
	case "=":
		return compare(a, b) == 0
	case "<>":
		return compare(a, b) != 0
	case "<":
		return compare(a, b) < 0
	case ">":
		return compare(a, b) > 0
	case "<=":
		return compare(a, b) <= 0
	case ">=":
		return compare(a, b) >= 0
	case "any":
		l, ok := b.([]any)
		if !ok {
			dunno("any of no array")
		}
		null := false
		for _, y := range l {
			if y == nil {
				null = true
			} else if compare(a, y) == 0 {
				return true
			}
		}
		if null {
			return nil
		}
		return false
	case "||", "+", "-":
		x, ok1 := a.(string)
		y, ok2 := b.(string)
		if ok1 && ok2 && t.op != "-" {
			return x + y
		}
		m, ok1 := a.(int64)
		n, ok2 := b.(int64)
		if ok1 && ok2 && t.op != "||" {
			if t.op == "+" {
				return m + n
			}
			return m - n
		}
	case "like":
		x, ok1 := a.(string)
		y, ok2 := b.(string)
		if ok1 && ok2 && !strings.ContainsAny(y, `\[`) {
			return like([]rune(x), []rune(y))
		}
	}
	dunno("%T %s %T", a, t.op, b)
	return nil
}

func like(s, p []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if like(s[i:], p[1:]) {
				return true
			}
		}
		return false
	case '_':
		return len(s) > 0 && like(s[1:], p[1:])
	}
	return len(s) > 0 && s[0] == p[0] && like(s[1:], p[1:])
}

func asText(v any) string {
	switch t := v.(type) {
	case string:
		return t
	case int64:
		return strconv.FormatInt(t, 10)
	}
	dunno("%T as text", v)
	return ""
}

func (e *evaluation) call(f call_, s *scope) any {
	if aggregates[f.name] > 0 {
		return e.aggregate(f, s)
	}
	var a []any
	for _, x := range f.args {
		a = append(a, e.eval(x, s))
	}
	n := func(k ...int) {
		for _, x := range k {
			if x == len(a) {
				return
			}
		}
		dunno("%s of %d", f.name, len(a))
	}
	whole := func(v any) int {
		i, ok := v.(int64)
		if !ok {
			dunno("%s of %T", f.name, v)
		}
		return int(i)
	}
	switch f.name {
	case "coalesce", "isnull":
		for _, v := range a {
			if v != nil {
				return v
			}
		}
		return nil
	case "concat":
		r := ""
		for _, v := range a {
			if v != nil {
				r += asText(v)
			}
		}
		return r
	case "nullif":
		n(2)
		if a[0] != nil && a[1] != nil && compare(a[0], a[1]) == 0 {
			return nil
		}
		return a[0]
	}
	for _, v := range a {
		if v == nil {
			return nil
		}
	}
	switch f.name {
	case "array_to_string":
		n(2)
		l, ok := a[0].([]any)
		if !ok {
			dunno("array_to_string of %T", a[0])
		}
		var r []string
		for _, v := range l {
			if v != nil {
				r = append(r, asText(v))
			}
		}
		return strings.Join(r, asText(a[1]))
	case "array_position":
		n(2)
		l, ok := a[0].([]any)
		if !ok {
			dunno("array_position of %T", a[0])
		}
		for i, v := range l {
			if v != nil && compare(v, a[1]) == 0 {
				return int64(i + 1)
			}
		}
		return nil
	case "array_length":
		n(2)
		l, ok := a[0].([]any)
		if !ok {
			dunno("array_length of %T", a[0])
		}
		return int64(len(l))
	case "lower":
		n(1)
		return strings.ToLower(asText(a[0]))
	case "upper":
		n(1)
		return strings.ToUpper(asText(a[0]))
	case "len":
		n(1)
		return int64(len([]rune(strings.TrimRight(asText(a[0]), " "))))
	case "length":
		n(1)
		return int64(len([]rune(asText(a[0]))))
	case "rtrim":
		n(1)
		return strings.TrimRight(asText(a[0]), " ")
	case "trim":
		n(1)
		return strings.Trim(asText(a[0]), " ")
	case "replace":
		n(3)
		return strings.ReplaceAll(asText(a[0]), asText(a[1]), asText(a[2]))
	case "substring":
		n(3)
		r, from, l := []rune(asText(a[0])), whole(a[1])-1, whole(a[2])
		if l < 0 || from < 0 {
			dunno("substring")
		}
		if from > len(r) {
			from = len(r)
		}
		if from+l > len(r) {
			l = len(r) - from
		}
		return string(r[from : from+l])
	case "stuff":
		n(4)
		r, from, l := []rune(asText(a[0])), whole(a[1])-1, whole(a[2])
		if from < 0 || from >= len(r) || l < 0 {
			return nil
		}
		if from+l > len(r) {
			l = len(r) - from
		}
		return string(r[:from]) + asText(a[3]) + string(r[from+l:])
	case "schema_name", "schema_id":
		n(1)
		g := e.funcs[f.name]
		if g == nil {
			dunno(f.name)
		}
		return g(a[0])
	}
	dunno("function %s", f.name)
	return nil
}

func (e *evaluation) aggregate(f call_, s *scope) any {
	if s.group == nil {
		dunno("%s outside of a group", f.name)
	}
	rows := append([]*scope{}, s.group...)
	if f.star {
		return int64(len(rows))
	}
	e.sort(rows, f.order, nil)
	var l []any
	var sep string
	seen := map[string]bool{}
	for _, r := range rows {
		v := e.eval(f.args[0], r)
		if f.distinct {
			k := fmt.Sprintf("%T %v", v, v)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		if len(f.args) > 1 {
			sep = asText(e.eval(f.args[1], r))
		}
		if v == nil && f.name != "array_agg" {
			continue
		}
		l = append(l, v)
	}
	if f.distinct && f.order == nil && f.name != "count" {
		sort.SliceStable(l, func(i, j int) bool { return l[i] != nil && (l[j] == nil || compare(l[i], l[j]) < 0) })
	}
	switch f.name {
	case "count":
		return int64(len(l))
	case "array_agg":
		if len(l) == 0 {
			return nil
		}
		return l
	case "string_agg":
		if len(l) == 0 {
			return nil
		}
		var r []string
		for _, v := range l {
			r = append(r, asText(v))
		}
		return strings.Join(r, sep)
	}
	if len(l) == 0 {
		return nil
	}
	best := l[0]
	for _, v := range l[1:] {
		c := compare(v, best)
		if (f.name == "min" || f.name == "bool_and") && c < 0 || (f.name == "max" || f.name == "bool_or") && c > 0 {
			best = v
		}
	}
	return best
}

// sort orders the rows; positions refer to the results.
func (e *evaluation) sort(rows []*scope, by []orderBy, results map[*scope][]any) {
	if len(by) == 0 {
		return
	}
	keys := map[*scope][]any{}
	for _, r := range rows {
		var k []any
		for _, o := range by {
			if x, ok := o.e.(lit); ok && results != nil {
				if i, ok := x.v.(int64); ok && i >= 1 && int(i) <= len(results[r]) {
					k = append(k, results[r][i-1])
					continue
				}
			}
			if x, ok := o.e.(ref); ok && results != nil && x.table == "" {
				// a result of that name comes first
				n, at := 0, 0
				for i, it := range r.items.items {
					if it.e != nil && (strings.EqualFold(it.alias, x.col) || it.alias == "" && nameOf(it.e) == x.col) {
						n, at = n+1, i
					}
				}
				if n == 1 {
					k = append(k, results[r][at])
					continue
				}
			}
			k = append(k, e.eval(o.e, r))
		}
		keys[r] = k
	}
	sort.SliceStable(rows, func(i, j int) bool {
		a, b := keys[rows[i]], keys[rows[j]]
		for n, o := range by {
			if a[n] == nil || b[n] == nil {
				if (a[n] == nil) == (b[n] == nil) {
					continue
				}
				dunno("order of nulls")
			}
			if c := compare(a[n], b[n]); c != 0 {
				return (c < 0) != o.desc
			}
		}
		return false
	})
}

// uses collects the columns an expression refers to; queries in it count as using all.
func uses(x expr, f func(ref)) (sub bool) {
	each := func(l ...expr) {
		for _, y := range l {
			if y != nil && uses(y, f) {
				sub = true
			}
		}
	}
	switch t := x.(type) {
	case ref:
		f(t)
	case op:
		each(t.l, t.r)
	case isNull:
		each(t.e)
	case inList:
		each(t.e)
		each(t.list...)
		sub = sub || t.q != nil
	case exists, scalar:
		return true
	case caseOf:
		each(t.of, t.other)
		for _, w := range t.when {
			each(w[0], w[1])
		}
	case subscript:
		each(t.e, t.i)
	case call_:
		each(t.args...)
	}
	return sub
}

func lower(l []string) []string {
	r := make([]string, len(l))
	for i, x := range l {
		r[i] = strings.ToLower(x)
	}
	return r
}

// rowsOf gives the rows of a source.
func (e *evaluation) rowsOf(src *source, s *scope) *sysTable {
	var t *sysTable
	switch {
	case src.fn != nil:
		if src.fn.name != "unnest" {
			dunno("rows of %s", src.fn.name)
		}
		t = &sysTable{}
		for i, a := range src.fn.args {
			v := e.eval(a, s)
			l, ok := v.([]any)
			if v != nil && !ok {
				dunno("unnest of %T", v)
			}
			for j, y := range l {
				if j == len(t.rows) {
					t.rows = append(t.rows, make([]any, len(src.fn.args)))
				}
				t.rows[j][i] = y
			}
			t.cols = append(t.cols, "unnest")
		}
		if src.ord {
			t.cols = append(t.cols, "ordinality")
			for j := range t.rows {
				t.rows[j] = append(t.rows[j], int64(j+1))
			}
		}
		if src.alias != "" && len(src.cols) == 0 && len(src.fn.args) == 1 {
			t.cols[0] = strings.ToLower(src.alias)
		}
	case src.q != nil:
		up := s
		if !src.lateral {
			up = s.up
		}
		t = e.run(src.q, up)
	default:
		n := strings.ToLower(strings.Join(src.name, "."))
		t = e.sys[n]
		if t == nil {
			t = e.sys[strings.TrimPrefix(n, "pg_catalog.")]
		}
		if t == nil {
			dunno("table %s", n)
		}
	}
	if len(src.cols) > 0 {
		if len(src.cols) > len(t.cols) {
			dunno("names of columns")
		}
		t = &sysTable{append(lower(src.cols), t.cols[len(src.cols):]...), t.rows}
	}
	if e.reverse && src.q == nil && src.fn == nil {
		r := make([][]any, len(t.rows))
		for i := range r {
			r[i] = t.rows[len(r)-1-i]
		}
		t = &sysTable{t.cols, r}
	}
	return t
}

// run evaluates a query; up is the scope it is in.
func (e *evaluation) run(q *query, up *scope) *sysTable {
	if q.union != nil {
		l := *q
		l.union = nil
		a, b := e.run(&l, up), e.run(q.union, up)
		t := &sysTable{cols: a.cols}
		seen := map[string]bool{}
		for _, r := range append(append([][]any{}, a.rows...), b.rows...) {
			k := fmt.Sprintf("%q", r)
			if !q.all && seen[k] {
				continue
			}
			seen[k] = true
			t.rows = append(t.rows, r)
		}
		return t
	}
	var found []*scope
	cur := &scope{up: up, merged: q.merged}
	used := make([]bool, len(q.where))
	var walk func(i int)
	bound := func(x expr) bool {
		ok := true
		if uses(x, func(r ref) {
			if r.table == "" {
				ok = false // known when all are
				return
			}
			here := false
			for _, f := range cur.frames {
				here = here || f.alias == r.table
			}
			if !here {
				for j := range q.from {
					if aliasOf(&q.from[j]) == r.table {
						ok = false
					}
				}
			}
		}) {
			return false
		}
		return ok
	}
	// where each of the conditions can be decided
	at := make([][]expr, len(q.from)+1)
	for i := 0; i <= len(q.from); i++ {
		if i > 0 {
			cur.frames = append(cur.frames, frame{alias: aliasOf(&q.from[i-1])})
		}
		for j, w := range q.where {
			if !used[j] && (i == len(q.from) || i > 0 && bound(w)) {
				used[j] = true
				at[i] = append(at[i], w)
			}
		}
	}
	cur.frames = nil
	holds := func(i int) bool {
		for _, w := range at[i] {
			if truth(e.eval(w, cur)) != true {
				return false
			}
		}
		return true
	}
	tables := make([]*sysTable, len(q.from))
	walk = func(i int) {
		if i == len(q.from) {
			found = append(found, &scope{frames: append([]frame{}, cur.frames...), up: up, items: q, merged: q.merged})
			return
		}
		src := &q.from[i]
		t := tables[i]
		if t == nil || src.lateral {
			t = e.rowsOf(src, cur)
			tables[i] = t
		}
		n := len(cur.frames)
		any_ := false
		alias := aliasOf(src)
		for _, row := range t.rows {
			cur.frames = append(cur.frames[:n:n], frame{alias, t.cols, row})
			if src.on != nil && truth(e.eval(src.on, cur)) != true {
				continue
			}
			same := true
			for _, c := range src.using {
				a, ok := (&scope{frames: cur.frames[:n], merged: q.merged}).find(ref{col: c})
				b, ok2 := (&scope{frames: cur.frames[n:]}).find(ref{col: c})
				if !ok || !ok2 {
					dunno("common column %s", c)
				}
				same = same && a != nil && b != nil && compare(a, b) == 0
			}
			if !same {
				continue
			}
			any_ = true
			if holds(i + 1) {
				walk(i + 1)
			}
		}
		if !any_ && src.join == "left" {
			cur.frames = append(cur.frames[:n:n], frame{alias, t.cols, make([]any, len(t.cols))})
			if holds(i + 1) {
				walk(i + 1)
			}
		}
		cur.frames = cur.frames[:n]
	}
	if len(q.from) > 0 {
		walk(0)
	} else {
		found = []*scope{{up: up, items: q, merged: q.merged}}
	}
	// groups
	hasAgg := false
	for _, it := range q.items {
		if it.e != nil && aggregated(it.e) {
			hasAgg = true
		}
	}
	if q.group != nil || hasAgg {
		var groups []*scope
		byKey := map[string]*scope{}
		for _, r := range found {
			k := ""
			for _, g := range q.group {
				if _, isLit := g.(lit); isLit {
					dunno("group by position")
				}
				k += fmt.Sprintf("%#v|", e.eval(g, r))
			}
			g := byKey[k]
			if g == nil {
				g = &scope{frames: r.frames, up: up, items: q, merged: q.merged}
				byKey[k] = g
				groups = append(groups, g)
			}
			g.group = append(g.group, r)
		}
		if q.group == nil && len(found) == 0 {
			dunno("aggregate of nothing")
		}
		found = groups
		if q.having != nil {
			l := found[:0:0]
			for _, g := range found {
				if truth(e.eval(q.having, g)) == true {
					l = append(l, g)
				}
			}
			found = l
		}
	} else if q.having != nil {
		dunno("having")
	}
	// results
	t := &sysTable{}
	for _, it := range q.items {
		switch {
		case it.star == "*":
			for i := range q.from {
				if tables[i] == nil {
					tables[i] = e.rowsOf(&q.from[i], &scope{up: up})
				}
				t.cols = append(t.cols, tables[i].cols...)
			}
		case it.star != "":
			dunno("all of %s", it.star)
		case it.alias != "":
			t.cols = append(t.cols, strings.ToLower(it.alias))
		default:
			n := "?column?"
			if r, ok := it.e.(ref); ok {
				n = r.col
			}
			t.cols = append(t.cols, n)
		}
	}
	results := map[*scope][]any{}
	for _, r := range found {
		var row []any
		for _, it := range q.items {
			if it.star != "" {
				for _, f := range r.frames {
					row = append(row, f.row...)
				}
				continue
			}
			row = append(row, e.eval(it.e, r))
		}
		results[r] = row
	}
	e.sort(found, q.order, results)
	seen := map[string]bool{}
	for _, r := range found {
		row := results[r]
		if q.distinct {
			k := fmt.Sprintf("%#v", row)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		t.rows = append(t.rows, row)
	}
	if q.limit >= 0 && len(t.rows) > q.limit {
		t.rows = t.rows[:q.limit]
	}
	if q.xmlType {
		dunno("xml as a type")
	}
	if q.xml || q.xmlText {
		var b strings.Builder
		for _, r := range t.rows {
			for i, v := range r {
				if t.cols[i] != "?column?" {
					dunno("element %s", t.cols[i])
				}
				if v != nil && q.xmlText {
					b.WriteString(asText(v))
				} else if v != nil {
					b.WriteString(strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#x0D;").Replace(asText(v)))
				}
			}
		}
		var v any
		if len(t.rows) > 0 {
			v = b.String()
		}
		return &sysTable{[]string{"xml"}, [][]any{{v}}}
	}
	return t
}

func nameOf(e expr) string {
	if r, ok := e.(ref); ok {
		return r.col
	}
	return ""
}

func aliasOf(s *source) string {
	if s.alias != "" {
		return strings.ToLower(s.alias)
	}
	if len(s.name) > 0 {
		return strings.ToLower(s.name[len(s.name)-1])
	}
	if s.fn != nil {
		return s.fn.name
	}
	return ""
}

func aggregated(x expr) bool {
	found := false
	var look func(x expr)
	look = func(x expr) {
		switch t := x.(type) {
		case op:
			look(t.l)
			look(t.r)
		case isNull:
			look(t.e)
		case inList:
			look(t.e)
			for _, y := range t.list {
				look(y)
			}
		case caseOf:
			for _, w := range t.when {
				look(w[0])
				look(w[1])
			}
			look(t.other)
		case subscript:
			look(t.e)
		case call_:
			if aggregates[t.name] > 0 {
				found = true
			}
			for _, y := range t.args {
				look(y)
			}
		}
	}
	look(x)
	return found
}

var parsed sync.Map // text -> *query or unsupported

// evaluate gives the result of the text, or what of it is not known.
func (e *evaluation) evaluate(text string) (t *sysTable, missing string) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			t, missing = nil, u.what
		}
	}()
	p, ok := parsed.Load(text)
	if !ok {
		func() {
			defer func() {
				if r := recover(); r != nil {
					u, ok := r.(unsupported)
					if !ok {
						panic(r)
					}
					p = u
				}
			}()
			p = parse(text)
		}()
		parsed.Store(text, p)
	}
	if u, ok := p.(unsupported); ok {
		return nil, u.what
	}
	return e.run(p.(*query), nil), ""
}
