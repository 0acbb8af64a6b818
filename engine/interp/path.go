package interp

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

var typInt = types.Typ[types.Int]

// Dec is one recorded decision of a path.
type Dec struct {
	V int64 // value tried, for concretisation
	T bool
}

// Path is the state of one symbolic execution path.
type Path struct {
	fullUnsat bool
	C         *term.Ctx
	PC        []*term.B
	pcVars    []map[string]bool
	known     map[string]bool // truth of conditions already on the path
	prefix    []Dec
	decs      []Dec
	siblings  [][]Dec
	S         *term.Solver
	model     *term.Model
	MapOrder  int
	Tier      string
	Seed      int64
	deadline  time.Time
	maxSteps  int64
	maxDecs   int

	nameCount  map[string]int
	inputs     []input
	Asserts    int
	Proved     int
	Unknown    []string
	Viol       []Violation
	Obs        []obs
	Bounds     []string
	Assumed    map[string]bool
	funcs      map[*ssa.Function]bool
	exts       map[string]bool
	errTrace   string
	panicTrace []string
	rng        *rand.Rand
	End        string
	EndMsg     string
	Reached    map[string]bool
	trivial    int
	wit        *Case
	Trace      bool
	rseeded    bool
	rseed      int64
	rcount     int
	rmemo      map[string]value
	ruint      uint32
}

type input struct {
	name string
	kind byte // i,r,b,c(choose)
	lo   float64
	hi   float64
	val  int64 // for choose
	ti   *term.I
	tb   *term.B
}

type obs struct {
	name string
	v    value
}

// Violation is a candidate counterexample.
type Violation struct {
	Label string
	Kind  string // assert, panic, exit
	Msg   string
	Model *term.Model
	Vals  map[string]any
}

func (p *Path) tick(steps int64) {
	if steps > p.maxSteps {
		panic(pathEnd{"limit", "step limit"})
	}
	if tight.Load() {
		panic(pathEnd{"limit", "memory limit"})
	}
	if time.Now().After(p.deadline) {
		panic(pathEnd{"limit", "time limit"})
	}
}

func (p *Path) noteFunc(fn *ssa.Function) { p.funcs[fn] = true }
func (p *Path) noteExternal(fn *ssa.Function) {
	p.exts[fn.String()] = true
}

func (p *Path) addPC(b *term.B) {
	if b.Op == term.BConst {
		if !b.V {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	if b.Op == term.BAnd {
		p.addPC(b.A)
		p.addPC(b.C)
		return
	}
	if p.known == nil {
		p.known = map[string]bool{}
	}
	p.known[b.Key()] = true
	p.known[p.C.Not(b).Key()] = false
	p.PC = append(p.PC, b)
	p.pcVars = append(p.pcVars, p.C.VarsOf(b))
	if p.model != nil && !p.C.NewEval(p.model).Bool(b) {
		p.model = nil
	}
}

// query decides PC ∧ goal. Results: Unsat is definite; Sat carries a model
// that may be approximate when the relaxation was used (exact=false).
func (p *Path) query(goal *term.B, strong bool) (term.Result, *term.Model, bool) {
	cs := append(p.slice(goal), goal)
	real, nonlin, bits := p.C.Features(cs)
	if !real {
		if bits <= 40 && bits > 0 {
			r, m := p.S.Check(p.C, cs, term.BV)
			if r != term.Unknown {
				return r, m, true
			}
		}
		r, m := p.S.Check(p.C, cs, term.Exact)
		return r, m, true
	}
	r, m := p.S.Check(p.C, cs, term.Relaxed)
	if r == term.Unsat {
		return r, nil, true
	}
	if !nonlin {
		return r, m, true
	}
	// numeric confirmation of the relaxed model first
	if m != nil && p.confirm(cs, m, 0) {
		return term.Sat, m, true
	}
	old := p.S.Timeout
	if !strong {
		p.S.Timeout = 1500
	}
	r2, m2 := p.S.Check(p.C, cs, term.Exact)
	p.S.Timeout = old
	switch r2 {
	case term.Unsat:
		return r2, nil, true
	case term.Sat:
		return r2, m2, true
	}
	return term.Unknown, m, false
}

func (p *Path) slice(goal *term.B) []*term.B { return p.C.SlicePC(p.PC, p.pcVars, goal) }

func (p *Path) confirm(cs []*term.B, m *term.Model, eps float64) bool {
	e := p.C.NewEval(m)
	for _, b := range cs {
		if eps > 0 {
			if !e.Margin(b, eps) && !e.Bool(b) {
				return false
			}
		} else if !e.Bool(b) {
			return false
		}
	}
	return true
}

// Decide follows or forks on a symbolic condition.
func (p *Path) Decide(b *term.B) bool {
	if b.Op == term.BConst {
		return b.V
	}
	if v, ok := p.known[b.Key()]; ok {
		return v
	}
	nb := p.C.Not(b)
	if len(p.decs) < len(p.prefix) {
		d := p.prefix[len(p.decs)]
		p.decs = append(p.decs, d)
		if d.T {
			p.addPC(b)
		} else {
			p.addPC(nb)
		}
		return d.T
	}
	if len(p.decs) > p.maxDecs {
		panic(pathEnd{"limit", "decision limit"})
	}
	if time.Now().After(p.deadline) {
		panic(pathEnd{"limit", "time limit"})
	}
	var canT, canF bool
	var mT, mF *term.Model
	if p.model != nil {
		if p.C.NewEval(p.model).Bool(b) {
			canT, mT = true, p.model
		} else {
			canF, mF = true, p.model
		}
	}
	ask := func(g *term.B) (bool, *term.Model) {
		if p.model != nil && len(p.model.R) > 0 {
			if m := p.search(append(append([]*term.B(nil), p.PC...), g), p.model, 12); m != nil {
				return true, m
			}
		}
		t0 := time.Now()
		r, m, _ := p.query(g, false)
		if p.Trace && time.Since(t0) > time.Second {
			fmt.Fprintf(os.Stderr, "DECIDE %.1fs %v %s\n", time.Since(t0).Seconds(), r, clipS(p.C.BString(g), 300))
		}
		if r == term.Unsat {
			return false, nil
		}
		return true, p.extend(m, g)
	}
	if !canT {
		canT, mT = ask(b)
	}
	if !canF {
		canF, mF = ask(nb)
	}
	if !canT && !canF {
		panic(pathEnd{"infeasible", "contradictory path"})
	}
	t := canT
	if canT && canF {
		// explore the true side now, the false side later
		sib := append(append([]Dec(nil), p.decs...), Dec{0, false})
		p.siblings = append(p.siblings, sib)
	}
	p.decs = append(p.decs, Dec{0, t})
	if t {
		p.addPC(b)
		if p.model == nil {
			p.model = mT
		}
	} else {
		p.addPC(nb)
		if p.model == nil {
			p.model = mF
		}
	}
	return t
}

// extend completes a model of a slice to a model of the whole path if the
// previous model covers the rest; returns nil when it does not check out.
func (p *Path) extend(m *term.Model, goal *term.B) *term.Model {
	if m == nil {
		return nil
	}
	n := term.NewModel()
	if p.model != nil {
		n = p.model.Clone()
	}
	for k, v := range m.R {
		n.R[k] = v
	}
	for k, v := range m.I {
		n.I[k] = v
	}
	for k, v := range m.B {
		n.B[k] = v
	}
	e := p.C.NewEval(n)
	for _, b := range p.PC {
		if !e.Bool(b) {
			return nil
		}
	}
	if !e.Bool(goal) {
		return nil
	}
	return n
}

// fullModel asks for a model of the whole path condition (and goal).
func (p *Path) fullModel(goal *term.B) *term.Model {
	if p.model != nil && (goal == nil || p.C.NewEval(p.model).Bool(goal)) {
		return p.model
	}
	cs := append([]*term.B(nil), p.PC...)
	if goal != nil {
		cs = append(cs, goal)
	}
	if len(cs) == 0 {
		return term.NewModel()
	}
	real, nonlin, bits := p.C.Features(cs)
	if !real && bits <= 40 {
		_, m := p.S.Check(p.C, cs, term.BV)
		if m != nil {
			return m
		}
	}
	r, m := p.S.Check(p.C, cs, term.Relaxed)
	if r == term.Unsat {
		p.fullUnsat = true
		return nil
	}
	if m != nil && p.confirm(cs, m, 0) {
		return m
	}
	if nonlin || m == nil {
		_, m2 := p.S.Check(p.C, cs, term.Exact)
		if m2 != nil && p.confirm(cs, m2, 1e-9) {
			return m2
		}
		// numeric search near the candidates
		for _, base := range []*term.Model{m, m2, p.model} {
			if x := p.search(cs, base, 400); x != nil {
				return x
			}
		}
		if m2 != nil {
			return m2
		}
	}
	return m
}

// search perturbs real inputs looking for a point satisfying cs. It only ever
// proposes counterexamples and witnesses; verdicts come from the solver.
func (p *Path) search(cs []*term.B, base *term.Model, n int) *term.Model {
	if base == nil {
		base = term.NewModel()
	}
	var rv []*term.Atom
	for _, a := range p.C.Atoms {
		if a.Kind == term.AVar {
			rv = append(rv, a)
		}
	}
	for k := 0; k < n; k++ {
		m := base.Clone()
		frac := []float64{0.15, 0.5, 1}[k%3]
		for _, a := range rv {
			if p.rng.Float64() < frac {
				m.R[a.Name] = p.randIn(a.Lo, a.Hi)
			}
		}
		if p.confirm(cs, m, 0) {
			return m
		}
	}
	return nil
}

func (p *Path) randIn(lo, hi float64) float64 {
	if math.IsInf(lo, 0) || lo < -1e6 {
		lo = -3
	}
	if math.IsInf(hi, 0) || hi > 1e6 {
		hi = math.Max(lo+3, 3)
	}
	// coarse dyadic grid keeps replays exact
	v := lo + (hi-lo)*p.rng.Float64()
	q := math.Round(v*64) / 64
	if q >= lo && q <= hi {
		return q
	}
	return v
}

// Concretize forks over the feasible values of an integer term.
func (p *Path) Concretize(t *term.I) int64 {
	if t.IsConst() {
		return t.Lo.Int64()
	}
	for n := 0; ; n++ {
		if len(p.decs) < len(p.prefix) {
			d := p.prefix[len(p.decs)]
			eq := p.C.IEqT(t, p.C.IConstV(d.V))
			p.decs = append(p.decs, d)
			if d.T {
				p.addPC(eq)
				return d.V
			}
			p.addPC(p.C.Not(eq))
			continue
		}
		if n > 4096 || len(p.decs) > p.maxDecs {
			panic(pathEnd{"limit", "too many values to concretise"})
		}
		p.fullUnsat = false
		m := p.fullModel(nil)
		if m == nil {
			r, _, _ := p.query(p.C.ILeT(p.C.IBig(t.Lo), t), true)
			if r == term.Unsat || p.fullUnsat {
				panic(pathEnd{"infeasible", ""})
			}
			panic(pathEnd{"limit", "no model to concretise an integer"})
		}
		v := p.C.NewEval(m).Int(t).Int64()
		eq := p.C.IEqT(t, p.C.IConstV(v))
		if eq.Op == term.BConst {
			if eq.V {
				return v
			}
			panic(pathEnd{"limit", "concretisation failed"})
		}
		ne := p.C.Not(eq)
		if r, _, _ := p.query(ne, false); r != term.Unsat {
			p.siblings = append(p.siblings, append(append([]Dec(nil), p.decs...), Dec{v, false}))
		}
		p.decs = append(p.decs, Dec{v, true})
		if p.model == nil {
			p.model = m
		}
		p.addPC(eq)
		return v
	}
}

// Choose forks into n concrete alternatives.
func (p *Path) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if len(p.decs) < len(p.prefix) {
		d := p.prefix[len(p.decs)]
		p.decs = append(p.decs, d)
		return int(d.V)
	}
	for k := n - 1; k >= 1; k-- {
		p.siblings = append(p.siblings, append(append([]Dec(nil), p.decs...), Dec{int64(k), true}))
	}
	p.decs = append(p.decs, Dec{0, true})
	return 0
}

// Assume restricts the path.
func (p *Path) Assume(b *term.B) {
	if b.Op == term.BConst {
		if !b.V {
			panic(pathEnd{"infeasible", "assumption"})
		}
		return
	}
	if p.model != nil && p.C.NewEval(p.model).Bool(b) {
		p.addPC(b)
		return
	}
	r, m, _ := p.query(b, false)
	if r == term.Unsat {
		panic(pathEnd{"infeasible", "assumption"})
	}
	x := p.extend(m, b)
	p.addPC(b)
	if p.model == nil {
		p.model = x
	}
}

func (p *Path) violation(label, kind, msg string, m *term.Model) {
	if m == nil {
		m = p.fullModel(nil)
	}
	if m == nil {
		p.Unknown = append(p.Unknown, label+": no model for a possible "+kind)
		return
	}
	p.Viol = append(p.Viol, Violation{Label: label, Kind: kind, Msg: msg, Model: m, Vals: p.values(m)})
}

// AssertB checks a boolean assertion for all inputs of this path.
func (p *Path) AssertB(label string, b *term.B) {
	p.Asserts++
	p.Reached[label] = true
	if b.Op == term.BConst {
		p.trivial++
		if b.V {
			p.Proved++
			return
		}
		p.violation(label, "assert", "assertion is false on this path", nil)
		return
	}
	nb := p.C.Not(b)
	r, m, exact := p.query(nb, true)
	switch {
	case r == term.Unsat:
		p.Proved++
		return
	}
	cs := append(append([]*term.B(nil), p.PC...), nb)
	x := p.refute(cs, m)
	if x == nil && r == term.Sat && exact {
		x = p.fullModel(nb)
	}
	if x != nil {
		p.violation(label, "assert", "", x)
	} else {
		p.Unknown = append(p.Unknown, label)
	}
	// continue under the assertion
	if r == term.Sat {
		rr, _, _ := p.query(b, false)
		if rr == term.Unsat {
			panic(pathEnd{"violated", label})
		}
	}
	p.addPC(b)
}

// refute looks for a numeric point satisfying cs, preferring clear margins.
func (p *Path) refute(cs []*term.B, m *term.Model) *term.Model {
	for _, base := range []*term.Model{m, p.model} {
		if base != nil && p.confirm(cs, base, 0) {
			return base
		}
	}
	for _, base := range []*term.Model{p.model, m} {
		if x := p.search(cs, base, 300); x != nil {
			return x
		}
	}
	return nil
}

// AssertClose checks |a-b| <= tol. Over the reals the margin is tol; a
// counterexample must exceed 4*tol to be proposed.
func (p *Path) AssertClose(label string, a, b *term.R, tol float64) {
	p.Asserts++
	p.Reached[label] = true
	d := p.C.Sub(a, b)
	if d.IsConst() {
		p.trivial++
		if math.Abs(d.ConstVal()) <= tol {
			p.Proved++
			return
		}
		p.violation(label, "assert", fmt.Sprintf("difference %g", d.ConstVal()), nil)
		return
	}
	neg := func(x *term.R, t float64) *term.B { // |x| > t
		return p.C.Or(p.C.LtRaw(p.C.Sub(p.C.RConst(t), x)), p.C.LtRaw(p.C.Add(p.C.RConst(t), x)))
	}
	for _, a := range p.C.UnboundedInv(d) {
		// is the denominator bounded away from zero?
		q := p.C.And(p.C.LtRaw(p.C.Sub(a.P, p.C.RConst(1e-4))), p.C.LtRaw(p.C.Neg(p.C.Add(a.P, p.C.RConst(1e-4)))))
		if r, _ := p.S.Check(p.C, append(p.slice(q), q), term.Relaxed); r != term.Unsat {
			break
		}
		a.Lo, a.Hi = math.Max(a.Lo, -1e4), math.Min(a.Hi, 1e4)
	}
	full0 := d
	d, dropped := p.C.Prune(d, tol*1e-3)
	tol0 := tol
	tol -= dropped
	if d.IsConst() && math.Abs(d.ConstVal()) <= tol {
		p.Proved++
		return
	}
	goal := neg(d, tol)
	cs := append(p.slice(goal), goal)
	r, m := p.S.Check(p.C, cs, term.Relaxed)
	if r == term.Unsat {
		p.Proved++
		return
	}
	if cl, bound, any := p.C.ClearDenominators(d); any && !math.IsInf(bound, 0) && bound > 0 {
		t := tol / bound
		g2 := neg(cl, t)
		if cl.IsConst() {
			if math.Abs(cl.ConstVal()) <= t {
				p.Proved++
				return
			}
		} else {
			r2, _ := p.S.Check(p.C, append(p.slice(g2), g2), term.Relaxed)
			if r2 == term.Unsat {
				p.Proved++
				return
			}
		}
	}
	// refutation first: a polynomial identity that fails does so almost everywhere
	d, tol = full0, tol0
	wide := neg(d, 4*tol)
	full := append(append([]*term.B(nil), p.PC...), wide)
	if x := p.refute(full, m); x != nil {
		p.violation(label, "assert", fmt.Sprintf("difference %g", p.C.NewEval(x).Real(d)), x)
		return
	}
	r3, m3 := p.S.Check(p.C, cs, term.Exact)
	if r3 == term.Unsat {
		p.Proved++
		return
	}
	if x := p.refute(full, m3); x != nil {
		p.violation(label, "assert", fmt.Sprintf("difference %g", p.C.NewEval(x).Real(d)), x)
		return
	}
	if r3 == term.Sat && m3 != nil {
		p.violation(label, "assert", "solver model", m3)
		return
	}
	if p.Trace {
		fmt.Fprintf(os.Stderr, "UNKNOWN %s: d=%s\n", label, p.C.String(d))
	}
	p.Unknown = append(p.Unknown, label)
}

// values lists every input under the model, filling unconstrained reals with
// pseudo-random in-range values so that witnesses are not degenerate.
func (p *Path) values(m *term.Model) map[string]any {
	out := map[string]any{}
	full := m.Clone()
	for _, in := range p.inputs {
		switch in.kind {
		case 'r':
			if _, ok := full.R[in.name]; !ok {
				full.R[in.name] = p.randIn(in.lo, in.hi)
			}
		}
	}
	if !p.confirm(p.PC, full, 0) {
		full = m
	}
	*m = *full
	e := p.C.NewEval(full)
	for _, in := range p.inputs {
		switch in.kind {
		case 'r':
			v, ok := full.R[in.name]
			if !ok {
				v = math.Min(math.Max(0, in.lo), in.hi)
			}
			if v < in.lo {
				v = in.lo
			}
			if v > in.hi {
				v = in.hi
			}
			out[in.name] = v
		case 'i':
			out[in.name] = e.Int(in.ti).Int64()
		case 'b':
			out[in.name] = e.Bool(in.tb)
		case 'c':
			out[in.name] = in.val
		}
	}
	return out
}

// name makes repeated names unique in call order.
func (p *Path) uname(n string) string {
	k := p.nameCount[n]
	p.nameCount[n]++
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func (p *Path) inFloat(name string, lo, hi float64) *term.R {
	n := p.uname(name)
	p.inputs = append(p.inputs, input{name: n, kind: 'r', lo: lo, hi: hi})
	return p.C.RVar(n, lo, hi)
}

func (p *Path) inInt(name string, lo, hi int64) *term.I {
	n := p.uname(name)
	t := p.C.IVar(n, lo, hi)
	if lo == hi {
		t = p.C.IConstV(lo)
	}
	p.inputs = append(p.inputs, input{name: n, kind: 'i', ti: t})
	return t
}

func (p *Path) inBool(name string) *term.B {
	n := p.uname(name)
	t := p.C.BVar(n)
	p.inputs = append(p.inputs, input{name: n, kind: 'b', tb: t})
	return t
}

func (p *Path) inChoose(name string, k int) int {
	n := p.uname(name)
	v := p.Choose(k)
	p.inputs = append(p.inputs, input{name: n, kind: 'c', val: int64(v)})
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

var _ = big.NewInt
var _ = strings.Join

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
