package sql

import (
	"errors"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/zverif/sym"
)

type table struct {
	name  string
	cols  []column
	pk    int // column that is the row number, -1 if none
	uniq  [][]int
	rows  [][]Value
	ids   []int64
	text  string
	index int
}

// schema is a state of a database. It is copied before it is changed.
type schema struct {
	order []string
	tabs  map[string]*table
}

func newSchema() *schema { return &schema{tabs: map[string]*table{}} }

func (s *schema) clone() *schema {
	c := newSchema()
	c.order = append(c.order, s.order...)
	for _, n := range s.order {
		t := *s.tabs[n]
		t.rows = append([][]Value(nil), t.rows...)
		t.ids = append([]int64(nil), t.ids...)
		c.tabs[n] = &t
	}
	return c
}

func fail(s string) error { return errors.New(s) }

func (s *schema) table(name string) (*table, error) {
	if t := s.tabs[strings.ToLower(name)]; t != nil {
		return t, nil
	}
	return nil, fail("no such table: " + name)
}

func (t *table) col(name string) int {
	n := strings.ToLower(name)
	for k := range t.cols {
		if t.cols[k].lower == n {
			return k
		}
	}
	return -1
}

func class(v Value) int {
	switch v.(type) {
	case nil:
		return 0
	case int64, float64:
		return 1
	case string:
		return 2
	}
	beyond("value")
	return 3
}

func eqv(a, b Value) bool {
	if class(a) != class(b) {
		return false
	}
	switch x := a.(type) {
	case nil:
		return true
	case int64:
		if y, ok := b.(int64); ok {
			return x == y
		}
		return float64(x) == b.(float64)
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
		return x == float64(b.(int64))
	}
	return a.(string) == b.(string)
}

func lessv(a, b Value) bool {
	if ca, cb := class(a), class(b); ca != cb {
		return ca < cb
	}
	switch x := a.(type) {
	case nil:
		return false
	case int64:
		if y, ok := b.(int64); ok {
			return x < y
		}
		return float64(x) < b.(float64)
	case float64:
		if y, ok := b.(float64); ok {
			return x < y
		}
		return x < float64(b.(int64))
	}
	return a.(string) < b.(string)
}

func truth(v Value) (val, known bool) {
	switch x := v.(type) {
	case nil:
		return false, false
	case int64:
		return x != 0, true
	case float64:
		return x != 0, true
	}
	beyond("truth of text")
	return false, false
}

func boolv(b bool) Value {
	if b {
		return int64(1)
	}
	return int64(0)
}

type ref struct{ tab, name, typ string }

type env struct {
	sc     *schema
	cols   []ref
	row    []Value
	rows   [][]Value // of the group
	params []Value
	outer  *env
	alias  map[string]*expr
}

func (e *env) lookup(x *expr) (Value, error) {
	n := strings.ToLower(x.s)
	for k, c := range e.cols {
		if c.name == n && (x.tab == "" || x.tab == c.tab) {
			if e.row == nil {
				return nil, nil
			}
			return e.row[k], nil
		}
	}
	if x.tab == "" && (n == "rowid" || n == "oid" || n == "_rowid_") {
		beyond("row number")
	}
	if x.tab == "" {
		if a := e.alias[n]; a != nil {
			return e.eval(a)
		}
	}
	if e.outer != nil {
		return e.outer.lookup(x)
	}
	if x.neg {
		return x.s, nil // an unknown quoted name is a text
	}
	s := x.s
	if x.tab != "" {
		s = x.tab + "." + s
	}
	return nil, fail("no such column: " + s)
}

// affinity of an operand of a comparison
func (e *env) typeOf(x *expr) string {
	if x.op != "col" {
		return ""
	}
	n := strings.ToLower(x.s)
	for _, c := range e.cols {
		if c.name == n && (x.tab == "" || x.tab == c.tab) {
			return c.typ
		}
	}
	if e.outer != nil {
		return e.outer.typeOf(x)
	}
	return ""
}

func affinity(typ string) byte {
	switch {
	case strings.Contains(typ, "int"):
		return 'i'
	case strings.Contains(typ, "char"), strings.Contains(typ, "clob"), strings.Contains(typ, "text"):
		return 't'
	case typ == "", strings.Contains(typ, "blob"):
		return 'b'
	case strings.Contains(typ, "real"), strings.Contains(typ, "floa"), strings.Contains(typ, "doub"):
		return 'r'
	}
	return 'n'
}

func convert(v Value, aff byte) Value {
	switch x := v.(type) {
	case int64:
		switch aff {
		case 'r':
			return float64(x)
		case 't':
			return strconv.Itoa(int(x))
		}
	case float64:
		switch aff {
		case 't':
			beyond("number stored as text")
		case 'i', 'n':
			if x == float64(int64(x)) {
				return int64(x)
			}
		}
	case string:
		if aff == 'i' || aff == 'r' || aff == 'n' {
			y := strings.TrimSpace(x)
			if n, err := strconv.ParseInt(y, 10, 64); err == nil {
				return convert(n, aff)
			}
			if f, err := strconv.ParseFloat(y, 64); err == nil && y != "" && isDigitOrSign(y[0]) {
				return convert(f, aff)
			}
		}
	}
	return v
}

func isDigitOrSign(c byte) bool { return isDigit(c) || c == '-' || c == '+' || c == '.' }

func (e *env) compare(x *expr) (a, b Value, err error) {
	if a, err = e.eval(x.a[0]); err != nil {
		return
	}
	if b, err = e.eval(x.a[1]); err != nil {
		return
	}
	a, b = e.unify(x.a[0], x.a[1], a, b)
	return
}

// unify applies the affinity of one operand to the other.
func (e *env) unify(xa, xb *expr, a, b Value) (Value, Value) {
	ta, tb := e.typeOf(xa), e.typeOf(xb)
	numeric := func(t string) bool { c := affinity(t); return t != "" && c != 't' && c != 'b' }
	if numeric(ta) && !numeric(tb) {
		b = convert(b, 'n')
	} else if numeric(tb) && !numeric(ta) {
		a = convert(a, 'n')
	} else if affinity(ta) == 't' && tb == "" {
		b = convert(b, 't')
	} else if affinity(tb) == 't' && ta == "" {
		a = convert(a, 't')
	}
	return a, b
}

func (e *env) eval(x *expr) (Value, error) {
	switch x.op {
	case "lit":
		return x.v, nil
	case "param":
		return e.params[x.n], nil
	case "col":
		return e.lookup(x)
	case "and", "or":
		isOr := x.op == "or"
		a, err := e.eval(x.a[0])
		if err != nil {
			return nil, err
		}
		va, ka := truth(a)
		if ka && va == isOr {
			return boolv(isOr), nil
		}
		b, err := e.eval(x.a[1])
		if err != nil {
			return nil, err
		}
		vb, kb := truth(b)
		if kb && vb == isOr {
			return boolv(isOr), nil
		}
		if !ka || !kb {
			return nil, nil
		}
		return boolv(!isOr), nil
	case "not":
		a, err := e.eval(x.a[0])
		if err != nil {
			return nil, err
		}
		v, k := truth(a)
		if !k {
			return nil, nil
		}
		return boolv(!v), nil
	case "=", "!=", "<", "<=", ">", ">=":
		a, b, err := e.compare(x)
		if err != nil || a == nil || b == nil {
			return nil, err
		}
		switch x.op {
		case "=":
			return boolv(eqv(a, b)), nil
		case "!=":
			return boolv(!eqv(a, b)), nil
		case "<":
			return boolv(lessv(a, b)), nil
		case ">":
			return boolv(lessv(b, a)), nil
		case "<=":
			return boolv(!lessv(b, a)), nil
		}
		return boolv(!lessv(a, b)), nil
	case "is":
		a, b, err := e.compare(x)
		if err != nil {
			return nil, err
		}
		return boolv(eqv(a, b) != x.neg), nil
	case "between":
		v, err := e.eval(x.a[0])
		if err != nil {
			return nil, err
		}
		lo, err := e.eval(x.a[1])
		if err != nil {
			return nil, err
		}
		hi, err := e.eval(x.a[2])
		if err != nil {
			return nil, err
		}
		if v == nil || lo == nil || hi == nil {
			return nil, nil
		}
		return boolv((!lessv(v, lo) && !lessv(hi, v)) != x.neg), nil
	case "in":
		v, err := e.eval(x.a[0])
		if err != nil || v == nil {
			return nil, err
		}
		null := false
		if x.sel != nil {
			rows, _, err := e.sc.query(x.sel, e.params, e)
			if err != nil {
				return nil, err
			}
			for _, r := range rows {
				w := r[0]
				if affinity(e.typeOf(x.a[0])) != 't' {
					w = convert(w, 'n')
				}
				if w == nil {
					null = true
				} else if eqv(v, w) {
					return boolv(!x.neg), nil
				}
			}
		}
		for _, y := range x.a[1:] {
			w, err := e.eval(y)
			if err != nil {
				return nil, err
			}
			u, w := e.unify(x.a[0], y, v, w)
			if w == nil {
				null = true
			} else if eqv(u, w) {
				return boolv(!x.neg), nil
			}
		}
		if null {
			return nil, nil
		}
		return boolv(x.neg), nil
	case "sub", "exists":
		rows, _, err := e.sc.query(x.sel, e.params, e)
		if err != nil {
			return nil, err
		}
		if x.op == "exists" {
			return boolv((len(rows) > 0) != x.neg), nil
		}
		if len(rows) == 0 {
			return nil, nil
		}
		return rows[0][0], nil
	case "neg":
		a, err := e.eval(x.a[0])
		if err != nil {
			return nil, err
		}
		switch y := a.(type) {
		case nil:
			return nil, nil
		case int64:
			return -y, nil
		case float64:
			return -y, nil
		}
		beyond("minus text")
	case "||":
		a, err := e.eval(x.a[0])
		if err != nil {
			return nil, err
		}
		b, err := e.eval(x.a[1])
		if err != nil || a == nil || b == nil {
			return nil, err
		}
		return convert(a, 't').(string) + convert(b, 't').(string), nil
	case "+", "-", "*", "/", "%":
		return e.arith(x)
	case "call":
		return e.call(x)
	}
	beyond("expression " + x.op)
	return nil, nil
}

func (e *env) arith(x *expr) (Value, error) {
	a, err := e.eval(x.a[0])
	if err != nil {
		return nil, err
	}
	b, err := e.eval(x.a[1])
	if err != nil || a == nil || b == nil {
		return nil, err
	}
	i, iok := a.(int64)
	j, jok := b.(int64)
	if iok && jok {
		switch x.op {
		case "+":
			return i + j, nil
		case "-":
			return i - j, nil
		case "*":
			return i * j, nil
		}
		if j == 0 {
			return nil, nil
		}
		if x.op == "/" {
			return i / j, nil
		}
		return i % j, nil
	}
	f, fok := convert(a, 'r').(float64)
	g, gok := convert(b, 'r').(float64)
	if !fok || !gok || x.op == "%" {
		beyond("arithmetic with text")
	}
	switch x.op {
	case "+":
		return f + g, nil
	case "-":
		return f - g, nil
	case "*":
		return f * g, nil
	}
	if g == 0 {
		return nil, nil
	}
	return f / g, nil
}

var aggregates = map[string]bool{"count": true, "sum": true, "total": true, "avg": true}

func isAgg(x *expr) bool {
	if x == nil {
		return false
	}
	if x.op == "call" && (aggregates[x.s] || ((x.s == "max" || x.s == "min") && len(x.a) == 1)) {
		return true
	}
	if x.op == "call" && (x.s == "group_concat" || x.s == "string_agg" || strings.HasPrefix(x.s, "json_")) {
		beyond("aggregate " + x.s)
	}
	for _, y := range x.a {
		if isAgg(y) {
			return true
		}
	}
	return false
}

func (e *env) call(x *expr) (Value, error) {
	if isAgg(x) && (aggregates[x.s] || x.s == "max" || x.s == "min") {
		return e.aggregate(x)
	}
	var a []Value
	for _, y := range x.a {
		v, err := e.eval(y)
		if err != nil {
			return nil, err
		}
		a = append(a, v)
	}
	switch x.s {
	case "datetime", "date", "time", "strftime", "julianday":
		return Now(), nil
	case "coalesce", "ifnull":
		for _, v := range a {
			if v != nil {
				return v, nil
			}
		}
		return nil, nil
	case "max", "min":
		best := a[0]
		for _, v := range a {
			if v == nil {
				return nil, nil
			}
			if (x.s == "max" && lessv(best, v)) || (x.s == "min" && lessv(v, best)) {
				best = v
			}
		}
		return best, nil
	case "abs":
		switch y := a[0].(type) {
		case nil:
			return nil, nil
		case int64:
			if y < 0 {
				return -y, nil
			}
			return y, nil
		case float64:
			if y < 0 {
				return -y, nil
			}
			return y, nil
		}
	case "length":
		if s, ok := a[0].(string); ok {
			return int64(len([]rune(s))), nil
		}
	case "lower":
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s), nil
		}
	case "upper":
		if s, ok := a[0].(string); ok {
			return strings.ToUpper(s), nil
		}
	case "trim":
		if s, ok := a[0].(string); ok && len(a) == 1 {
			return strings.Trim(s, " "), nil
		}
	}
	beyond("function " + x.s)
	return nil, nil
}

func (e *env) aggregate(x *expr) (Value, error) {
	if x.s == "count" && (len(x.a) == 0 || x.a[0].op == "star") {
		return int64(len(e.rows)), nil
	}
	var vals []Value
	for _, r := range e.rows {
		sub := *e
		sub.row, sub.rows = r, nil
		v, err := sub.eval(x.a[0])
		if err != nil {
			return nil, err
		}
		if v == nil {
			continue
		}
		dup := false
		if x.neg {
			for _, w := range vals {
				dup = dup || eqv(v, w)
			}
		}
		if !dup {
			vals = append(vals, v)
		}
	}
	switch x.s {
	case "count":
		return int64(len(vals)), nil
	case "max", "min":
		if len(vals) == 0 {
			return nil, nil
		}
		best := vals[0]
		for _, v := range vals[1:] {
			if (x.s == "max" && lessv(best, v)) || (x.s == "min" && lessv(v, best)) {
				best = v
			}
		}
		return best, nil
	}
	if len(vals) == 0 {
		if x.s == "total" {
			return 0.0, nil
		}
		return nil, nil
	}
	allInt := true
	f, n := 0.0, int64(0)
	for _, v := range vals {
		switch y := v.(type) {
		case int64:
			n += y
			f += float64(y)
		case float64:
			allInt = false
			f += y
		default:
			beyond("sum of text")
		}
	}
	if x.s == "avg" {
		return f / float64(len(vals)), nil
	}
	if allInt && x.s == "sum" {
		return n, nil
	}
	return f, nil
}

// query runs a select. The names of the columns are returned too.
func (s *schema) query(q *selectStmt, params []Value, outer *env) ([][]Value, []string, error) {
	rows, keys, names, err := s.core(q, params, outer)
	if err != nil {
		return nil, nil, err
	}
	compound := q.next != nil
	for p := q; p.next != nil; p = p.next {
		more, _, mn, err := s.core(p.next, params, outer)
		if err != nil {
			return nil, nil, err
		}
		if len(mn) != len(names) {
			return nil, nil, fail("SELECTs to the left and right of UNION do not have the same number of result columns")
		}
		keys = nil
		switch p.kind {
		case "all":
			rows = append(rows, more...)
		case "union":
			rows = sortRows(distinct(append(rows, more...)))
		case "except", "intersect":
			var keep [][]Value
			for _, r := range distinct(rows) {
				if contains(more, r) == (p.kind == "intersect") {
					keep = append(keep, r)
				}
			}
			rows = sortRows(keep)
		}
	}
	if len(q.order) > 0 {
		if compound || keys == nil {
			keys = nil
			for _, r := range rows {
				var key []Value
				for _, o := range q.order {
					k := outputCol(o.e, q, names)
					if k < 0 {
						return nil, nil, fail("1st ORDER BY term does not match any column in the result set")
					}
					key = append(key, r[k])
				}
				keys = append(keys, key)
			}
		}
		rows, keys = append([][]Value(nil), rows...), append([][]Value(nil), keys...)
		for i := 1; i < len(rows); i++ {
			for j := i; j > 0 && before(keys[j], keys[j-1], q.order); j-- {
				keys[j], keys[j-1] = keys[j-1], keys[j]
				rows[j], rows[j-1] = rows[j-1], rows[j]
			}
		}
	}
	if q.limit != nil {
		e := &env{sc: s, params: params, outer: outer}
		from, n := int64(0), int64(-1)
		if q.offset != nil {
			v, err := e.eval(q.offset)
			if err != nil {
				return nil, nil, err
			}
			w, ok := v.(int64)
			if !ok {
				return nil, nil, fail("datatype mismatch")
			}
			from = w
		}
		v, err := e.eval(q.limit)
		if err != nil {
			return nil, nil, err
		}
		w, ok := v.(int64)
		if !ok {
			return nil, nil, fail("datatype mismatch")
		}
		n = w
		var keep [][]Value
		for k, r := range rows {
			if int64(k) >= from && (n < 0 || int64(k) < from+n) {
				keep = append(keep, r)
			}
		}
		rows = keep
	}
	return rows, names, nil
}

func before(a, b []Value, o []ordering) bool {
	for k := range o {
		x, y := a[k], b[k]
		if o[k].desc {
			x, y = y, x
		}
		if lessv(x, y) {
			return true
		}
		if lessv(y, x) {
			return false
		}
	}
	return false
}

func sortRows(r [][]Value) [][]Value {
	r = append([][]Value(nil), r...)
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && rowLess(r[j], r[j-1]); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func rowLess(a, b []Value) bool {
	for k := range a {
		if lessv(a[k], b[k]) {
			return true
		}
		if lessv(b[k], a[k]) {
			return false
		}
	}
	return false
}

func rowEq(a, b []Value) bool {
	for k := range a {
		if !eqv(a[k], b[k]) {
			return false
		}
	}
	return true
}

func contains(rows [][]Value, r []Value) bool {
	for _, x := range rows {
		if rowEq(x, r) {
			return true
		}
	}
	return false
}

func distinct(rows [][]Value) [][]Value {
	var out [][]Value
	for _, r := range rows {
		if !contains(out, r) {
			out = append(out, r)
		}
	}
	return out
}

func outputCol(x *expr, q *selectStmt, names []string) int {
	if x.op == "lit" {
		if n, ok := x.v.(int64); ok {
			if n < 1 || n > int64(len(names)) {
				return -1
			}
			return int(n - 1)
		}
	}
	if x.op == "col" {
		for k, n := range names {
			if strings.ToLower(n) == strings.ToLower(x.s) {
				return k
			}
		}
		for k, it := range q.items {
			if it.e.op == "col" && strings.ToLower(it.e.s) == strings.ToLower(x.s) && k < len(names) {
				return k
			}
		}
	}
	return -1
}

// core runs one select without its ordering and limit. The sort keys are returned unless rows were merged.
func (s *schema) core(q *selectStmt, params []Value, outer *env) (rows, keys [][]Value, names []string, err error) {
	e := &env{sc: s, params: params, outer: outer, alias: map[string]*expr{}}
	if q.values != nil {
		for _, l := range q.values {
			var r []Value
			for _, x := range l {
				v, err := e.eval(x)
				if err != nil {
					return nil, nil, nil, err
				}
				r = append(r, v)
			}
			if len(rows) > 0 && len(r) != len(rows[0]) {
				return nil, nil, nil, fail("all VALUES must have the same number of terms")
			}
			rows = append(rows, r)
		}
		return rows, nil, make([]string, len(rows[0])), nil
	}
	full := [][]Value{{}}
	for _, src := range q.from {
		var rs [][]Value
		n := len(e.cols)
		if src.sub != nil {
			r, nm, err := s.query(src.sub, params, outer)
			if err != nil {
				return nil, nil, nil, err
			}
			for _, c := range nm {
				e.cols = append(e.cols, ref{tab: src.alias, name: strings.ToLower(c)})
			}
			rs = r
		} else if strings.ToLower(src.tab) == "sqlite_master" || strings.ToLower(src.tab) == "sqlite_schema" {
			for _, c := range []string{"type", "name", "tbl_name", "sql"} {
				e.cols = append(e.cols, ref{tab: src.alias, name: c, typ: "text"})
			}
			for _, nm := range s.order {
				t := s.tabs[nm]
				rs = append(rs, []Value{"table", t.name, t.name, t.text})
			}
		} else {
			t, err := s.table(src.tab)
			if err != nil {
				return nil, nil, nil, err
			}
			for _, c := range t.cols {
				e.cols = append(e.cols, ref{src.alias, c.lower, c.typ})
			}
			rs = t.rows
		}
		var next [][]Value
		for _, l := range full {
			hit := false
			for _, r := range rs {
				row := append(append([]Value(nil), l...), r...)
				if src.on != nil {
					e.row = row
					v, err := e.eval(src.on)
					if err != nil {
						return nil, nil, nil, err
					}
					if ok, known := truth(v); !ok || !known {
						continue
					}
				}
				hit = true
				next = append(next, row)
			}
			if src.left && !hit {
				next = append(next, append(append([]Value(nil), l...), make([]Value, len(e.cols)-n)...))
			}
		}
		full = next
	}
	e.row = nil
	if q.where != nil {
		if isAgg(q.where) {
			return nil, nil, nil, fail("misuse of aggregate")
		}
		if len(full) == 0 {
			if _, err := e.eval(q.where); err != nil { // unknown names are reported without rows too
				return nil, nil, nil, err
			}
		}
		var keep [][]Value
		for _, r := range full {
			e.row = r
			v, err := e.eval(q.where)
			if err != nil {
				return nil, nil, nil, err
			}
			if ok, known := truth(v); ok && known {
				keep = append(keep, r)
			}
		}
		full = keep
	}
	var items []item
	agg := q.group != nil
	for _, it := range q.items {
		if it.e.op == "star" {
			found := false
			for _, c := range e.cols {
				if it.e.tab == "" || it.e.tab == c.tab {
					found = true
					items = append(items, item{e: &expr{op: "col", tab: c.tab, s: c.name}, text: c.name})
				}
			}
			if !found {
				return nil, nil, nil, fail("no tables specified")
			}
			continue
		}
		agg = agg || isAgg(it.e)
		items = append(items, it)
	}
	for _, it := range items {
		n := it.text
		if it.alias != "" {
			n = it.alias
			e.alias[strings.ToLower(n)] = it.e
		}
		names = append(names, n)
	}
	type group struct {
		key  []Value
		rows [][]Value
	}
	var units []group
	if !agg {
		for _, r := range full {
			units = append(units, group{rows: [][]Value{r}})
		}
	} else if q.group == nil {
		units = []group{{rows: full}}
	} else {
		for _, r := range full {
			e.row = r
			var key []Value
			for _, x := range q.group {
				if k := outputCol(x, q, names); k >= 0 && x.op == "lit" {
					x = items[k].e
				}
				v, err := e.eval(x)
				if err != nil {
					return nil, nil, nil, err
				}
				key = append(key, v)
			}
			at := -1
			for k := range units {
				if rowEq(units[k].key, key) {
					at = k
					break
				}
			}
			if at < 0 {
				at = len(units)
				units = append(units, group{key: key})
			}
			units[at].rows = append(units[at].rows, r)
		}
		for i := 1; i < len(units); i++ { // groups come sorted
			for j := i; j > 0 && rowLess(units[j].key, units[j-1].key); j-- {
				units[j], units[j-1] = units[j-1], units[j]
			}
		}
	}
	if len(units) == 0 {
		e.row, e.rows = nil, nil
		for _, it := range items {
			if _, err := e.eval(it.e); err != nil {
				return nil, nil, nil, err
			}
		}
	}
	for _, u := range units {
		e.row, e.rows = nil, u.rows
		if len(u.rows) > 0 {
			e.row = u.rows[0]
			if agg { // sqlite takes bare columns from the row of the maximum
				for _, it := range items {
					if it.e.op == "col" && len(u.rows) > 1 && !inGroup(it.e, q.group) {
						beyond("bare column beside an aggregate")
					}
				}
			}
		}
		if q.having != nil {
			v, err := e.eval(q.having)
			if err != nil {
				return nil, nil, nil, err
			}
			if ok, known := truth(v); !ok || !known {
				continue
			}
		}
		var r, key []Value
		for _, it := range items {
			v, err := e.eval(it.e)
			if err != nil {
				return nil, nil, nil, err
			}
			r = append(r, v)
		}
		if q.distinct && contains(rows, r) {
			continue
		}
		for _, o := range q.order {
			if k := outputCol(o.e, q, names); k >= 0 && (o.e.op == "lit" || q.next != nil) {
				key = append(key, r[k])
				continue
			}
			if q.next != nil {
				continue
			}
			v, err := e.eval(o.e)
			if err != nil {
				return nil, nil, nil, err
			}
			key = append(key, v)
		}
		rows = append(rows, r)
		keys = append(keys, key)
	}
	if keys == nil {
		keys = [][]Value{}
	}
	return rows, keys, names, nil
}

func inGroup(x *expr, g []*expr) bool {
	for _, y := range g {
		if y.op == "col" && strings.ToLower(y.s) == strings.ToLower(x.s) {
			return true
		}
	}
	return false
}

// exec changes the schema. On an error the caller drops it.
func (s *schema) exec(st *stmt, params []Value) (last, affected int64, err error) {
	switch st.kind {
	case "pragma", "select":
		if st.kind == "select" {
			_, _, err = s.query(st.sel, params, nil)
		}
		return 0, 0, err
	case "create":
		n := strings.ToLower(st.name)
		if s.tabs[n] != nil {
			if st.quiet {
				return 0, 0, nil
			}
			return 0, 0, fail("table " + st.name + " already exists")
		}
		t := &table{name: st.name, cols: st.cols, pk: st.pk, text: st.text}
		for _, u := range st.uniq {
			if err := t.addUnique(u); err != nil {
				return 0, 0, err
			}
		}
		s.tabs[n] = t
		s.order = append(s.order, n)
		return 0, 0, nil
	case "index":
		t, err := s.table(st.name)
		if err != nil {
			return 0, 0, err
		}
		for _, u := range st.uniq {
			if err := t.addUnique(u); err != nil {
				return 0, 0, err
			}
			for k := range t.rows {
				if t.clash(t.rows[k], k, t.uniq[len(t.uniq)-1]) >= 0 {
					return 0, 0, fail("UNIQUE constraint failed")
				}
			}
		}
		return 0, 0, nil
	case "drop":
		n := strings.ToLower(st.name)
		if s.tabs[n] == nil {
			if st.quiet {
				return 0, 0, nil
			}
			return 0, 0, fail("no such table: " + st.name)
		}
		delete(s.tabs, n)
		var keep []string
		for _, x := range s.order {
			if x != n {
				keep = append(keep, x)
			}
		}
		s.order = keep
		return 0, 0, nil
	}
	t, err := s.table(st.name)
	if err != nil {
		return 0, 0, err
	}
	if st.kind == "insert" {
		return s.insert(t, st, params)
	}
	e := &env{sc: s, params: params}
	for _, c := range t.cols {
		e.cols = append(e.cols, ref{strings.ToLower(t.name), c.lower, c.typ})
	}
	hit := make([]bool, len(t.rows))
	if len(t.rows) == 0 && st.where != nil {
		if _, err := e.eval(st.where); err != nil {
			return 0, 0, err
		}
	}
	for k, r := range t.rows {
		e.row = r
		hit[k] = true
		if st.where != nil {
			v, err := e.eval(st.where)
			if err != nil {
				return 0, 0, err
			}
			ok, known := truth(v)
			hit[k] = ok && known
		}
	}
	if st.kind == "delete" {
		var rows [][]Value
		var ids []int64
		for k := range t.rows {
			if hit[k] {
				affected++
				continue
			}
			rows, ids = append(rows, t.rows[k]), append(ids, t.ids[k])
		}
		t.rows, t.ids = rows, ids
		return 0, affected, nil
	}
	for k := range t.rows {
		if !hit[k] {
			continue
		}
		e.row = t.rows[k]
		row := append([]Value(nil), t.rows[k]...)
		for j, n := range st.names {
			c := t.col(n)
			if c < 0 {
				return 0, 0, fail("no such column: " + n)
			}
			if c == t.pk {
				beyond("change of the row number")
			}
			v, err := e.eval(st.sets[j])
			if err != nil {
				return 0, 0, err
			}
			row[c] = convert(v, affinity(t.cols[c].typ))
			if row[c] == nil && t.cols[c].notNull {
				return 0, 0, fail("NOT NULL constraint failed: " + t.name + "." + t.cols[c].name)
			}
		}
		for _, u := range t.uniq {
			if t.clash(row, k, u) >= 0 {
				if st.onConf != "" {
					beyond("conflict in an update")
				}
				return 0, 0, t.clashError(u)
			}
		}
		t.rows[k] = row
		affected++
	}
	return 0, affected, nil
}

func (t *table) addUnique(names []string) error {
	var u []int
	for _, n := range names {
		k := t.col(n)
		if k < 0 {
			return fail("no such column: " + n)
		}
		u = append(u, k)
	}
	t.uniq = append(t.uniq[:len(t.uniq):len(t.uniq)], u)
	return nil
}

func (t *table) clash(row []Value, self int, u []int) int {
	for k, r := range t.rows {
		if k == self {
			continue
		}
		same := true
		for _, c := range u {
			if row[c] == nil || r[c] == nil || !eqv(row[c], r[c]) {
				same = false
				break
			}
		}
		if same {
			return k
		}
	}
	return -1
}

func (t *table) clashError(u []int) error {
	s := ""
	for k, c := range u {
		if k > 0 {
			s += ", "
		}
		s += t.name + "." + t.cols[c].name
	}
	return fail("UNIQUE constraint failed: " + s)
}

func (t *table) remove(k int) {
	t.rows = append(append([][]Value(nil), t.rows[:k]...), t.rows[k+1:]...)
	t.ids = append(append([]int64(nil), t.ids[:k]...), t.ids[k+1:]...)
}

func (s *schema) insert(t *table, st *stmt, params []Value) (last, affected int64, err error) {
	var at []int
	for _, n := range st.names {
		k := t.col(n)
		if k < 0 {
			return 0, 0, fail("table " + t.name + " has no column named " + n)
		}
		at = append(at, k)
	}
	if st.names == nil && !st.dflt {
		for k := range t.cols {
			at = append(at, k)
		}
	}
	rows := [][]Value{{}}
	if !st.dflt {
		if rows, _, err = s.query(st.sel, params, nil); err != nil {
			return 0, 0, err
		}
	}
	e := &env{sc: s, params: params}
	for _, vals := range rows {
		if len(vals) != len(at) {
			return 0, 0, fail("table " + t.name + " has " + strconv.Itoa(len(at)) + " columns but " + strconv.Itoa(len(vals)) + " values were supplied")
		}
		row := make([]Value, len(t.cols))
		for k, c := range t.cols {
			if c.def != nil {
				if row[k], err = e.eval(c.def); err != nil {
					return 0, 0, err
				}
			}
		}
		for k, v := range vals {
			row[at[k]] = v
		}
		for k, c := range t.cols {
			row[k] = convert(row[k], affinity(c.typ))
			if row[k] == nil && c.notNull && k != t.pk {
				if st.onConf == "ignore" {
					beyond("ignored constraint")
				}
				return 0, 0, fail("NOT NULL constraint failed: " + t.name + "." + c.name)
			}
		}
		id := int64(1)
		for _, x := range t.ids {
			if x >= id {
				id = x + 1
			}
		}
		drop := -1
		if t.pk >= 0 && row[t.pk] != nil {
			v, ok := row[t.pk].(int64)
			if !ok {
				return 0, 0, fail("datatype mismatch")
			}
			id = int64(sym.Concrete(int(v)))
			for k, x := range t.ids {
				if x == id {
					drop = k
				}
			}
		}
		skip := false
		if drop >= 0 {
			switch st.onConf {
			case "ignore":
				skip = true
			case "replace":
				t.remove(drop)
			default:
				return 0, 0, fail("UNIQUE constraint failed: " + t.name + "." + t.cols[t.pk].name)
			}
		}
		for _, u := range t.uniq {
			if skip {
				break
			}
			for k := t.clash(row, -1, u); k >= 0; k = t.clash(row, -1, u) {
				if st.onConf == "ignore" {
					skip = true
					break
				}
				if st.onConf != "replace" {
					return 0, 0, t.clashError(u)
				}
				t.remove(k)
			}
		}
		if skip {
			continue
		}
		if t.pk >= 0 {
			row[t.pk] = id
		}
		k := len(t.ids)
		for k > 0 && t.ids[k-1] > id {
			k--
		}
		t.rows = append(t.rows[:k:k], append([][]Value{row}, t.rows[k:]...)...)
		t.ids = append(t.ids[:k:k], append([]int64{id}, t.ids[k:]...)...)
		last = id
		affected++
	}
	return last, affected, nil
}
