package sql

import (
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/zverif/sym"
)

// token kinds: 'i' word, 'q' quoted name, 's' text, 'n' number, '?' parameter, 'o' operator
type token struct {
	k byte
	s string
}

func beyond(what string) { sym.Assume(false); panic("sql stand-in: " + what) }

func isAlpha(c byte) bool {
	return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c >= 0x80
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func scanSQL(s string) ([]token, error) {
	var out []token
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case isAlpha(c):
			j := i
			for j < len(s) && (isAlpha(s[j]) || isDigit(s[j])) {
				j++
			}
			out = append(out, token{'i', s[i:j]})
			i = j
		case isDigit(c) || (c == '.' && i+1 < len(s) && isDigit(s[i+1])):
			j := i
			for j < len(s) && (isDigit(s[j]) || s[j] == '.') {
				j++
			}
			out = append(out, token{'n', s[i:j]})
			i = j
		case c == '\'' || c == '"' || c == '`' || c == '[':
			end := c
			if c == '[' {
				end = ']'
			}
			txt := ""
			j := i + 1
			for {
				if j >= len(s) {
					return nil, fail("unrecognized token: " + s[i:])
				}
				if s[j] == end {
					if end != ']' && j+1 < len(s) && s[j+1] == end {
						txt += string(rune(end))
						j += 2
						continue
					}
					break
				}
				txt += s[j : j+1]
				j++
			}
			if c == '\'' {
				out = append(out, token{'s', txt})
			} else {
				out = append(out, token{'q', txt})
			}
			i = j + 1
		case c == '?':
			i++
			if i < len(s) && isDigit(s[i]) {
				beyond("numbered parameter")
			}
			out = append(out, token{'?', "?"})
		default:
			two := ""
			if i+1 < len(s) {
				two = s[i : i+2]
			}
			if two == "<=" || two == ">=" || two == "<>" || two == "!=" || two == "==" || two == "||" {
				out = append(out, token{'o', two})
				i += 2
				continue
			}
			if strings.IndexByte("()+-*/%,.;=<>", c) < 0 {
				return nil, fail("unrecognized token: " + s[i:i+1])
			}
			out = append(out, token{'o', s[i : i+1]})
			i++
		}
	}
	return out, nil
}

type expr struct {
	op  string // lit, param, col, star, call, and operators
	s   string // function or column
	tab string
	v   Value
	a   []*expr
	sel *selectStmt
	n   int
	neg bool
}

type item struct {
	e     *expr
	alias string
	text  string
}

type source struct {
	tab, alias string
	sub        *selectStmt
	left       bool
	on         *expr
}

type ordering struct {
	e    *expr
	desc bool
}

type selectStmt struct {
	distinct bool
	items    []item
	from     []source
	where    *expr
	group    []*expr
	having   *expr
	values   [][]*expr
	// compounds
	next *selectStmt
	kind string
	// of the whole
	order         []ordering
	limit, offset *expr
}

type column struct {
	name, lower, typ string
	notNull          bool
	def              *expr
}

type stmt struct {
	kind   string // create, index, insert, update, delete, drop, select, pragma
	text   string
	name   string
	quiet  bool // IF [NOT] EXISTS
	cols   []column
	pk     int
	uniq   [][]string
	names  []string
	onConf string
	sel    *selectStmt
	sets   []*expr
	where  *expr
	params int
	dflt   bool
}

type parser struct {
	t   []token
	p   int
	n   int
	err error
}

var keywords = " select from where group by order limit offset union all distinct and or not null is in like between having as join inner left outer cross on using set values insert into update delete create table drop index exists if unique primary key foreign references default check constraint except intersect case when then else end asc desc "

func (p *parser) peek() token {
	if p.p < len(p.t) {
		return p.t[p.p]
	}
	return token{}
}

func (p *parser) word() string {
	if t := p.peek(); t.k == 'i' {
		return strings.ToLower(t.s)
	}
	return ""
}

func (p *parser) is(words ...string) bool {
	for k, w := range words {
		if p.p+k >= len(p.t) || p.t[p.p+k].k != 'i' || strings.ToLower(p.t[p.p+k].s) != w {
			return false
		}
	}
	return true
}

func (p *parser) accept(words ...string) bool {
	if p.is(words...) {
		p.p += len(words)
		return true
	}
	return false
}

func (p *parser) isOp(o string) bool { t := p.peek(); return t.k == 'o' && t.s == o }

func (p *parser) op(o string) bool {
	if p.isOp(o) {
		p.p++
		return true
	}
	return false
}

func (p *parser) bad() {
	if p.err == nil {
		if p.p < len(p.t) {
			p.err = fail("near \"" + p.peek().s + "\": syntax error")
		} else {
			p.err = fail("incomplete input")
		}
	}
	p.p = len(p.t)
}

func (p *parser) need(o string) {
	if !p.op(o) {
		p.bad()
	}
}

func (p *parser) needWord(w string) {
	if !p.accept(w) {
		p.bad()
	}
}

func (p *parser) name() string {
	t := p.peek()
	if t.k == 'q' || (t.k == 'i' && !strings.Contains(keywords, " "+strings.ToLower(t.s)+" ")) || (t.k == 'i' && strings.ToLower(t.s) == "key") {
		p.p++
		return t.s
	}
	p.bad()
	return ""
}

func parse(text string) (*stmt, error) {
	toks, err := scanSQL(text)
	if err != nil {
		return nil, err
	}
	for len(toks) > 0 && toks[len(toks)-1] == (token{'o', ";"}) {
		toks = toks[:len(toks)-1]
	}
	for _, t := range toks {
		if t == (token{'o', ";"}) {
			beyond("several statements")
		}
	}
	p := &parser{t: toks}
	s := p.statement()
	if p.err == nil && p.p < len(p.t) {
		p.bad()
	}
	if p.err != nil {
		return nil, p.err
	}
	s.params = p.n
	s.text = text
	return s, nil
}

func (p *parser) statement() *stmt {
	switch {
	case p.accept("create"):
		uniq := p.accept("unique")
		if p.accept("index") {
			return p.index(uniq)
		}
		if p.accept("temp") || p.accept("temporary") || !p.accept("table") {
			beyond("create of something else")
		}
		return p.create()
	case p.is("insert") || p.is("replace"):
		return p.insert()
	case p.accept("update"):
		return p.update()
	case p.accept("delete"):
		p.needWord("from")
		s := &stmt{kind: "delete", name: p.name()}
		if p.accept("where") {
			s.where = p.expr()
		}
		return s
	case p.accept("drop"):
		if !p.accept("table") {
			beyond("drop of something else")
		}
		s := &stmt{kind: "drop"}
		s.quiet = p.accept("if", "exists")
		s.name = p.name()
		return s
	case p.is("select") || p.is("values"):
		return &stmt{kind: "select", sel: p.selectFull()}
	case p.accept("pragma"):
		p.p = len(p.t)
		return &stmt{kind: "pragma"}
	case p.is("begin") || p.is("commit") || p.is("end") || p.is("rollback") || p.is("savepoint") || p.is("release") ||
		p.is("with") || p.is("alter") || p.is("explain") || p.is("vacuum") || p.is("analyze") || p.is("attach"):
		beyond("statement " + p.word())
	}
	p.bad()
	return &stmt{}
}

func (p *parser) index(uniq bool) *stmt {
	s := &stmt{kind: "index"}
	s.quiet = p.accept("if", "not", "exists")
	p.name()
	p.needWord("on")
	s.name = p.name()
	cols := p.names()
	if uniq {
		s.uniq = append(s.uniq, cols)
	}
	return s
}

func (p *parser) names() []string {
	var out []string
	p.need("(")
	for p.err == nil {
		out = append(out, p.name())
		if p.accept("asc") || p.accept("desc") {
		}
		if !p.op(",") {
			break
		}
	}
	p.need(")")
	return out
}

func (p *parser) conflict() string {
	c := p.word()
	p.p++
	switch c {
	case "ignore", "replace", "abort", "fail":
		return c
	}
	beyond("conflict clause")
	return ""
}

func (p *parser) create() *stmt {
	s := &stmt{kind: "create", pk: -1}
	s.quiet = p.accept("if", "not", "exists")
	s.name = p.name()
	p.need("(")
	for p.err == nil {
		if p.accept("constraint") {
			p.name()
		}
		switch {
		case p.accept("foreign", "key"):
			p.names()
			p.references()
		case p.is("unique"):
			p.p++
			s.uniq = append(s.uniq, p.names())
		case p.accept("primary", "key"):
			n := p.names()
			if len(n) != 1 {
				s.uniq = append(s.uniq, n)
				break
			}
			for k := range s.cols {
				if s.cols[k].lower == strings.ToLower(n[0]) && s.cols[k].typ == "integer" {
					s.pk = k
				}
			}
			if s.pk < 0 {
				s.uniq = append(s.uniq, n)
			}
		case p.is("check"):
			beyond("check constraint")
		default:
			p.columnDef(s)
		}
		if p.op(",") {
			continue
		}
		break
	}
	p.need(")")
	if p.accept("without") {
		beyond("without rowid")
	}
	return s
}

func (p *parser) references() {
	p.needWord("references")
	p.name()
	if p.isOp("(") {
		p.names()
	}
	for p.accept("on") {
		p.p++ // delete or update
		if !p.accept("no", "action") && !p.accept("set", "null") && !p.accept("set", "default") {
			p.p++
		}
	}
	for p.accept("deferrable") || p.accept("initially", "deferred") || p.accept("initially", "immediate") {
	}
}

func (p *parser) columnDef(s *stmt) {
	c := column{name: p.name()}
	c.lower = strings.ToLower(c.name)
	for p.peek().k == 'i' {
		w := p.word()
		if w == "primary" || w == "unique" || w == "not" || w == "null" || w == "default" || w == "references" || w == "check" || w == "constraint" || w == "collate" || w == "generated" {
			break
		}
		if c.typ != "" {
			c.typ += " "
		}
		c.typ += w
		p.p++
		if p.op("(") {
			for !p.isOp(")") && p.err == nil && p.p < len(p.t) {
				p.p++
			}
			p.need(")")
		}
	}
	k := len(s.cols)
	for p.err == nil {
		switch {
		case p.accept("primary", "key"):
			desc := p.accept("desc")
			p.accept("asc")
			p.accept("autoincrement")
			if c.typ == "integer" && !desc {
				s.pk = k
			} else {
				s.uniq = append(s.uniq, []string{c.name})
			}
			continue
		case p.accept("unique"):
			s.uniq = append(s.uniq, []string{c.name})
			continue
		case p.accept("not", "null"):
			c.notNull = true
			continue
		case p.accept("null"):
			continue
		case p.accept("default"):
			if p.op("(") {
				c.def = p.expr()
				p.need(")")
			} else {
				c.def = p.unary()
			}
			continue
		case p.is("references"):
			p.references()
			continue
		case p.is("check") || p.is("collate") || p.is("generated") || p.is("constraint") || (p.is("on") && p.p+1 < len(p.t)):
			beyond("column constraint")
		}
		break
	}
	s.cols = append(s.cols, c)
}

func (p *parser) insert() *stmt {
	s := &stmt{kind: "insert"}
	if p.accept("replace") {
		s.onConf = "replace"
	} else {
		p.needWord("insert")
		if p.accept("or") {
			s.onConf = p.conflict()
		}
	}
	p.needWord("into")
	s.name = p.name()
	if p.isOp("(") {
		s.names = p.names()
	}
	if p.accept("default", "values") {
		s.dflt = true
		return s
	}
	s.sel = p.selectFull()
	if p.is("on") || p.is("returning") {
		beyond("upsert")
	}
	return s
}

func (p *parser) update() *stmt {
	s := &stmt{kind: "update"}
	if p.accept("or") {
		s.onConf = p.conflict()
	}
	s.name = p.name()
	p.needWord("set")
	for p.err == nil {
		s.names = append(s.names, p.name())
		p.need("=")
		s.sets = append(s.sets, p.expr())
		if !p.op(",") {
			break
		}
	}
	if p.accept("where") {
		s.where = p.expr()
	}
	return s
}

func (p *parser) selectFull() *selectStmt {
	first := p.selectCore()
	last := first
	for p.err == nil {
		kind := ""
		switch {
		case p.accept("union", "all"):
			kind = "all"
		case p.accept("union"):
			kind = "union"
		case p.accept("except"):
			kind = "except"
		case p.accept("intersect"):
			kind = "intersect"
		}
		if kind == "" {
			break
		}
		last.next, last.kind = p.selectCore(), kind
		last = last.next
	}
	if p.accept("order", "by") {
		for p.err == nil {
			o := ordering{e: p.expr()}
			if p.accept("collate") {
				beyond("collation")
			}
			if p.accept("desc") {
				o.desc = true
			} else {
				p.accept("asc")
			}
			first.order = append(first.order, o)
			if !p.op(",") {
				break
			}
		}
	}
	if p.accept("limit") {
		first.limit = p.expr()
		if p.accept("offset") {
			first.offset = p.expr()
		} else if p.op(",") {
			first.offset = first.limit
			first.limit = p.expr()
		}
	}
	return first
}

func (p *parser) selectCore() *selectStmt {
	s := &selectStmt{}
	if p.accept("values") {
		for p.err == nil {
			p.need("(")
			s.values = append(s.values, p.list())
			p.need(")")
			if !p.op(",") {
				break
			}
		}
		return s
	}
	p.needWord("select")
	s.distinct = p.accept("distinct")
	p.accept("all")
	for p.err == nil {
		start := p.p
		var it item
		if p.op("*") {
			it.e = &expr{op: "star"}
		} else if p.p+2 < len(p.t) && (p.peek().k == 'i' || p.peek().k == 'q') && p.t[p.p+1] == (token{'o', "."}) && p.t[p.p+2] == (token{'o', "*"}) {
			it.e = &expr{op: "star", tab: strings.ToLower(p.peek().s)}
			p.p += 3
		} else {
			it.e = p.expr()
		}
		for k := start; k < p.p && k < len(p.t); k++ {
			it.text += p.t[k].s
		}
		if it.e != nil && it.e.op == "col" {
			it.text = it.e.s
		}
		if p.accept("as") {
			it.alias = p.name()
		} else if t := p.peek(); t.k == 'q' || (t.k == 'i' && !strings.Contains(keywords, " "+strings.ToLower(t.s)+" ")) {
			it.alias = p.name()
		}
		s.items = append(s.items, it)
		if !p.op(",") {
			break
		}
	}
	if p.accept("from") {
		s.from = append(s.from, p.source())
		for p.err == nil {
			left := false
			switch {
			case p.op(","):
			case p.accept("join"), p.accept("inner", "join"), p.accept("cross", "join"):
			case p.accept("left", "join"), p.accept("left", "outer", "join"):
				left = true
			case p.is("natural") || p.is("right") || p.is("full"):
				beyond("join")
			default:
				left = false
				goto done
			}
			{
				src := p.source()
				src.left = left
				if p.accept("on") {
					src.on = p.expr()
				} else if p.is("using") {
					beyond("using")
				}
				s.from = append(s.from, src)
			}
		}
	done:
	}
	if p.accept("where") {
		s.where = p.expr()
	}
	if p.accept("group", "by") {
		s.group = p.list()
		if p.accept("having") {
			s.having = p.expr()
		}
	}
	return s
}

func (p *parser) source() source {
	var s source
	if p.op("(") {
		s.sub = p.selectFull()
		p.need(")")
	} else {
		s.tab = p.name()
		s.alias = s.tab
	}
	if p.accept("as") {
		s.alias = p.name()
	} else if t := p.peek(); t.k == 'q' || (t.k == 'i' && !strings.Contains(keywords+" natural right full ", " "+strings.ToLower(t.s)+" ")) {
		s.alias = p.name()
	}
	s.alias = strings.ToLower(s.alias)
	return s
}

func (p *parser) list() []*expr {
	var out []*expr
	for p.err == nil {
		out = append(out, p.expr())
		if !p.op(",") {
			break
		}
	}
	return out
}

func (p *parser) expr() *expr {
	l := p.and()
	for p.err == nil && p.accept("or") {
		l = &expr{op: "or", a: []*expr{l, p.and()}}
	}
	return l
}

func (p *parser) and() *expr {
	l := p.not()
	for p.err == nil && p.accept("and") {
		l = &expr{op: "and", a: []*expr{l, p.not()}}
	}
	return l
}

func (p *parser) not() *expr {
	if p.is("not") && !p.is("not", "exists") {
		p.p++
		return &expr{op: "not", a: []*expr{p.not()}}
	}
	return p.comparison()
}

func (p *parser) comparison() *expr {
	l := p.sum()
	for p.err == nil {
		t := p.peek()
		if t.k == 'o' && (t.s == "=" || t.s == "==" || t.s == "<>" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.p++
			o := t.s
			if o == "==" {
				o = "="
			}
			if o == "<>" {
				o = "!="
			}
			l = &expr{op: o, a: []*expr{l, p.sum()}}
			continue
		}
		if p.accept("is") {
			neg := p.accept("not")
			l = &expr{op: "is", neg: neg, a: []*expr{l, p.sum()}}
			continue
		}
		if p.accept("isnull") {
			l = &expr{op: "is", a: []*expr{l, {op: "lit"}}}
			continue
		}
		if p.accept("notnull") {
			l = &expr{op: "is", neg: true, a: []*expr{l, {op: "lit"}}}
			continue
		}
		neg := false
		if p.is("not", "in") || p.is("not", "like") || p.is("not", "between") {
			p.p++
			neg = true
		}
		if p.accept("in") {
			e := &expr{op: "in", neg: neg, a: []*expr{l}}
			p.need("(")
			if p.is("select") || p.is("values") {
				e.sel = p.selectFull()
			} else if !p.isOp(")") {
				e.a = append(e.a, p.list()...)
			}
			p.need(")")
			l = e
			continue
		}
		if p.accept("between") {
			lo := p.sum()
			p.needWord("and")
			l = &expr{op: "between", neg: neg, a: []*expr{l, lo, p.sum()}}
			continue
		}
		if p.is("like") || p.is("glob") || p.is("regexp") || p.is("collate") {
			beyond("text matching")
		}
		break
	}
	return l
}

func (p *parser) sum() *expr {
	l := p.product()
	for p.err == nil {
		t := p.peek()
		if t.k == 'o' && (t.s == "+" || t.s == "-" || t.s == "||") {
			p.p++
			l = &expr{op: t.s, a: []*expr{l, p.product()}}
			continue
		}
		break
	}
	return l
}

func (p *parser) product() *expr {
	l := p.unary()
	for p.err == nil {
		t := p.peek()
		if t.k == 'o' && (t.s == "*" || t.s == "/" || t.s == "%") {
			p.p++
			l = &expr{op: t.s, a: []*expr{l, p.unary()}}
			continue
		}
		break
	}
	return l
}

func (p *parser) unary() *expr {
	if p.op("-") {
		return &expr{op: "neg", a: []*expr{p.unary()}}
	}
	if p.op("+") {
		return p.unary()
	}
	t := p.peek()
	switch {
	case t.k == 'n':
		p.p++
		if strings.Contains(t.s, ".") {
			f, err := strconv.ParseFloat(t.s, 64)
			if err != nil {
				p.bad()
			}
			return &expr{op: "lit", v: f}
		}
		n, err := strconv.Atoi(t.s)
		if err != nil {
			p.bad()
		}
		return &expr{op: "lit", v: int64(n)}
	case t.k == 's':
		p.p++
		return &expr{op: "lit", v: t.s}
	case t.k == '?':
		p.p++
		p.n++
		return &expr{op: "param", n: p.n - 1}
	case p.op("("):
		var e *expr
		if p.is("select") || p.is("values") {
			e = &expr{op: "sub", sel: p.selectFull()}
		} else {
			e = p.expr()
		}
		if p.isOp(",") {
			beyond("row value")
		}
		p.need(")")
		return e
	case p.is("null"):
		p.p++
		return &expr{op: "lit"}
	case p.is("exists") || p.is("not", "exists"):
		neg := p.accept("not")
		p.p++
		p.need("(")
		e := &expr{op: "exists", neg: neg, sel: p.selectFull()}
		p.need(")")
		return e
	case p.is("case") || p.is("cast"):
		beyond(t.s)
	case p.is("current_timestamp") || p.is("current_date") || p.is("current_time"):
		p.p++
		return &expr{op: "call", s: "datetime"}
	case t.k == 'i' || t.k == 'q':
		n := p.name()
		if t.k == 'i' && p.op("(") {
			e := &expr{op: "call", s: strings.ToLower(n)}
			if p.accept("distinct") {
				e.neg = true
			}
			if p.op("*") {
				e.a = []*expr{{op: "star"}}
			} else if !p.isOp(")") {
				e.a = p.list()
			}
			p.need(")")
			if p.is("over") || p.is("filter") {
				beyond("window")
			}
			return e
		}
		if p.op(".") {
			c := p.name()
			return &expr{op: "col", tab: strings.ToLower(n), s: c}
		}
		return &expr{op: "col", s: n, neg: t.k == 'q'}
	}
	p.bad()
	return &expr{op: "lit"}
}
