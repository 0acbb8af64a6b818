package term

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver is one persistent solver process.
type Solver struct {
	Bin     string
	Args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Queries int
	Time    time.Duration
	Res     [3]int
	Timeout int // ms
	cache   map[string]cached
	LogTo   io.Writer
}

type cached struct {
	r Result
	m *Model
}

func NewSolver(bin string, args ...string) *Solver {
	return &Solver{Bin: bin, Args: args, Timeout: 10000, cache: map[string]cached{}}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.Bin, s.Args...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	return s.cmd.Start()
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// run sends a script and reads until the marker.
func (s *Solver) run(script string) (string, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return "", err
		}
	}
	if s.LogTo != nil {
		fmt.Fprintf(s.LogTo, "%s\n", script)
	}
	go func(w io.Writer) { io.WriteString(w, script+"\n(echo \"<<done>>\")\n") }(s.in)
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	rd := s.out
	go func() {
		var sb strings.Builder
		for {
			line, err := rd.ReadString('\n')
			if strings.Contains(line, "<<done>>") {
				ch <- res{sb.String(), nil}
				return
			}
			sb.WriteString(line)
			if err != nil {
				ch <- res{sb.String(), err}
				return
			}
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.Close()
		}
		return r.s, r.err
	case <-time.After(time.Duration(s.Timeout)*time.Millisecond + 5*time.Second):
		s.Close()
		return "", fmt.Errorf("solver did not answer")
	}
}

type Mode int

const (
	Relaxed Mode = iota // non-linear monomials are bounded fresh variables
	Exact               // non-linear real/integer arithmetic
	BV                  // narrowed bit-vectors (no reals)
)

type incrAtom struct{ n, p string }

type emitter struct {
	incr   map[string][]incrAtom
	angles []angle
	c      *Ctx
	mode   Mode
	w      int
	decl   []string
	defs   []string
	seenA  map[int]bool
	seenI  map[string]string
	seenM  map[int32]bool
	seenB  map[string]bool
	rvars  map[string]bool
	ivars  map[string]*I
	bvars  map[string]bool
	err    error
	nfl    int
}

func num(f *big.Float) string {
	// Emit with 40 significant digits unless it is short and exact.
	if z, acc := f.Int(nil); acc == big.Exact && z.BitLen() < 120 {
		if z.Sign() < 0 {
			return "(- " + new(big.Int).Neg(z).String() + ".0)"
		}
		return z.String() + ".0"
	}
	g := new(big.Float).SetPrec(100).Set(f)
	r, _ := g.Rat(nil)
	neg := r.Sign() < 0
	if neg {
		r.Neg(r)
	}
	s := "(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)"
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

func fnum(v float64) string { return num(nf().SetFloat64(v)) }

func sname(s string) string { return "|" + strings.ReplaceAll(s, "|", "_") + "|" }

func (e *emitter) bounds(n string, lo, hi float64) {
	if !math.IsInf(lo, 0) && !math.IsNaN(lo) {
		e.defs = append(e.defs, fmt.Sprintf("(<= %s %s)", fnum(lo), n))
	}
	if !math.IsInf(hi, 0) && !math.IsNaN(hi) {
		e.defs = append(e.defs, fmt.Sprintf("(<= %s %s)", n, fnum(hi)))
	}
}

// widen an outward-rounded interval for derived quantities
func outward(lo, hi float64) (float64, float64) {
	return lo - 1e-9*(1+math.Abs(lo)), hi + 1e-9*(1+math.Abs(hi))
}

func (e *emitter) atom(id int32) string {
	a := e.c.Atoms[id]
	n := fmt.Sprintf("a%d", id)
	if a.Kind == AVar {
		n = sname(a.Name)
	}
	if a.Kind == AInt {
		if e.mode == BV {
			e.err = fmt.Errorf("real/int mix in bit-vector mode")
		}
		return "(to_real " + e.int(a.I) + ")"
	}
	if e.seenA[int(id)] {
		return n
	}
	e.seenA[int(id)] = true
	e.decl = append(e.decl, fmt.Sprintf("(declare-fun %s () Real)", n))
	if a.Kind == AVar {
		e.rvars[a.Name] = true
		e.bounds(n, a.Lo, a.Hi)
		return n
	}
	lo, hi := outward(a.Lo, a.Hi)
	e.bounds(n, lo, hi)
	switch a.Kind {
	case AInv:
		p := e.real(a.P)
		if e.mode == Exact {
			e.defs = append(e.defs, fmt.Sprintf("(= (* %s %s) 1.0)", n, p))
		} else {
			// sign and convexity facts that stay linear
			e.defs = append(e.defs, fmt.Sprintf("(= (> %s 0.0) (> %s 0.0))", n, p), fmt.Sprintf("(= (< %s 0.0) (< %s 0.0))", n, p))
		}
	case ASqrt:
		p := e.real(a.P)
		e.defs = append(e.defs, fmt.Sprintf("(>= %s 0.0)", n), fmt.Sprintf("(= (> %s 0.0) (> %s 0.0))", n, p))
		if e.mode == Exact {
			e.defs = append(e.defs, fmt.Sprintf("(= (* %s %s) %s)", n, n, p))
		} else {
			e.defs = append(e.defs, fmt.Sprintf("(= (> %s 1.0) (> %s 1.0))", n, p))
		}
	case AIte:
		e.defs = append(e.defs, fmt.Sprintf("(= %s (ite %s %s %s))", n, e.bool(a.B), e.real(a.P), e.real(a.Q)))
	case ADef:
		if e.mode == Exact {
			e.defs = append(e.defs, fmt.Sprintf("(= %s (* %s %s))", n, e.real(a.P), e.real(a.Q)))
		}
	case AFn:
		if a.Name == "atan" || a.Name == "tanh" || a.Name == "erf" || a.Name == "exp" || a.Name == "log" {
			// increasing functions keep the order of their arguments
			if e.incr == nil {
				e.incr = map[string][]incrAtom{}
			}
			p := e.real(a.P)
			for _, o := range e.incr[a.Name] {
				if len(e.incr[a.Name]) < 8 {
					e.defs = append(e.defs, fmt.Sprintf("(= (< %s %s) (< %s %s))", n, o.n, p, o.p), fmt.Sprintf("(= (< %s %s) (< %s %s))", o.n, n, o.p, p))
				}
			}
			e.incr[a.Name] = append(e.incr[a.Name], incrAtom{n, p})
		}
		switch a.Name {
		case "atan", "tanh", "erf":
			p := e.real(a.P)
			e.defs = append(e.defs, fmt.Sprintf("(= (> %s 0.0) (> %s 0.0))", n, p), fmt.Sprintf("(= (< %s 0.0) (< %s 0.0))", n, p))
		case "exp":
			p := e.real(a.P)
			e.defs = append(e.defs, fmt.Sprintf("(> %s 0.0)", n), fmt.Sprintf("(>= %s (+ 1.0 %s))", n, p), fmt.Sprintf("(= (>= %s 1.0) (>= %s 0.0))", n, p))
		case "log":
			p := e.real(a.P)
			e.defs = append(e.defs, fmt.Sprintf("(= (>= %s 0.0) (>= %s 1.0))", n, p), fmt.Sprintf("(<= %s (- %s 1.0))", n, p))
		case "cos", "sin":
			// relate the pair when both are present
			other := "sin"
			if a.Name == "sin" {
				other = "cos"
			}
			if b, ok := e.c.atomKey["f:"+other+a.P.Key()]; ok && b.ID < a.ID {
				o := e.atom(int32(b.ID))
				if e.mode == Exact {
					e.defs = append(e.defs, fmt.Sprintf("(= (+ (* %s %s) (* %s %s)) 1.0)", n, n, o, o))
				}
				// the circle lies between the inscribed diamond and the circumscribed octagon
				e.defs = append(e.defs, fmt.Sprintf("(>= (+ (ite (< %s 0.0) (- %s) %s) (ite (< %s 0.0) (- %s) %s)) 1.0)", n, n, n, o, o, o),
					fmt.Sprintf("(<= (+ (ite (< %s 0.0) (- %s) %s) (ite (< %s 0.0) (- %s) %s)) 1.4142135624)", n, n, n, o, o, o))
				if len(a.P.t) == 1 {
					if fs := e.c.monos[a.P.t[0].m].f; len(fs) == 1 && fs[0].e == 1 && e.c.Atoms[fs[0].a].Kind == AVar {
						k, _ := a.P.t[0].c.Float64()
						sn, cn := n, o
						if a.Name == "cos" {
							sn, cn = o, n
						}
						v := e.c.Atoms[fs[0].a]
						e.angles = append(e.angles, angle{v, k, sn, cn})
					}
				}
			}
		}
	}
	return n
}

func (e *emitter) mono(m int32) string {
	f := e.c.monos[m].f
	if len(f) == 1 && f[0].e == 1 {
		return e.atom(f[0].a)
	}
	if e.mode != Relaxed {
		var parts []string
		for _, x := range f {
			n := e.atom(x.a)
			for i := int32(0); i < x.e; i++ {
				parts = append(parts, n)
			}
		}
		return "(* " + strings.Join(parts, " ") + ")"
	}
	n := fmt.Sprintf("m%d", m)
	if !e.seenM[m] {
		e.seenM[m] = true
		e.decl = append(e.decl, fmt.Sprintf("(declare-fun %s () Real)", n))
		for _, x := range f { // keep variables declared so models cover them
			e.atom(x.a)
		}
		lo, hi := e.c.monoRange(m)
		l2, h2 := outward(lo, hi)
		if lo >= 0 {
			l2 = math.Max(l2, 0)
		}
		if hi <= 0 {
			h2 = math.Min(h2, 0)
		}
		e.bounds(n, l2, h2)
	}
	return n
}

func (e *emitter) real(p *R) string {
	if len(p.t) == 0 {
		return "0.0"
	}
	var parts []string
	for _, t := range p.t {
		k := num(t.c)
		if t.m == 0 {
			parts = append(parts, k)
			continue
		}
		n := e.mono(t.m)
		if k == "1.0" {
			parts = append(parts, n)
		} else {
			parts = append(parts, "(* "+k+" "+n+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func inum(z *big.Int) string {
	if z.Sign() < 0 {
		return "(- " + new(big.Int).Neg(z).String() + ")"
	}
	return z.String()
}

func (e *emitter) bvnum(z *big.Int) string {
	m := new(big.Int).Lsh(big.NewInt(1), uint(e.w))
	v := new(big.Int).Mod(z, m)
	return fmt.Sprintf("(_ bv%s %d)", v.String(), e.w)
}

func (e *emitter) int(i *I) string {
	if i.Op == IConst {
		if e.mode == BV {
			return e.bvnum(i.Lo)
		}
		return inum(i.Lo)
	}
	if n, ok := e.seenI[i.Key()]; ok {
		return n
	}
	if i.Op == IVarOp {
		n := sname(i.Name)
		e.seenI[i.Key()] = n
		e.ivars[i.Name] = i
		if e.mode == BV {
			e.decl = append(e.decl, fmt.Sprintf("(declare-fun %s () (_ BitVec %d))", n, e.w))
			e.defs = append(e.defs, fmt.Sprintf("(bvsle %s %s)", e.bvnum(i.Lo), n), fmt.Sprintf("(bvsle %s %s)", n, e.bvnum(i.Hi)))
		} else {
			e.decl = append(e.decl, fmt.Sprintf("(declare-fun %s () Int)", n))
			e.defs = append(e.defs, fmt.Sprintf("(<= %s %s)", inum(i.Lo), n), fmt.Sprintf("(<= %s %s)", n, inum(i.Hi)))
		}
		return n
	}
	e.nfl++
	n := fmt.Sprintf("t%d", e.nfl)
	if i.Op == IFloor {
		if e.mode == BV {
			e.err = fmt.Errorf("floor in bit-vector mode")
			return "0"
		}
		p := e.real(i.P)
		e.seenI[i.Key()] = n
		e.decl = append(e.decl, fmt.Sprintf("(declare-fun %s () Int)", n))
		e.defs = append(e.defs, fmt.Sprintf("(<= (to_real %s) %s)", n, p), fmt.Sprintf("(< %s (+ 1.0 (to_real %s)))", p, n))
		return n
	}
	var body string
	bv := e.mode == BV
	op := func(a, b string) string {
		f := b
		if bv {
			f = a
		}
		return fmt.Sprintf("(%s %s %s)", f, e.int(i.A), e.int(i.B))
	}
	switch i.Op {
	case IAdd:
		body = op("bvadd", "+")
	case ISub:
		body = op("bvsub", "-")
	case IMul:
		body = op("bvmul", "*")
	case IQuo:
		if bv {
			body = op("bvsdiv", "")
		} else if i.A.Lo.Sign() >= 0 && i.B.Lo.Sign() > 0 {
			body = op("", "div")
		} else {
			a, b := e.int(i.A), e.int(i.B)
			body = fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a, a, b, a, b)
		}
	case IRem:
		if bv {
			body = op("bvsrem", "")
		} else if i.A.Lo.Sign() >= 0 && i.B.Lo.Sign() > 0 {
			body = op("", "mod")
		} else {
			a, b := e.int(i.A), e.int(i.B)
			body = fmt.Sprintf("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", a, a, b, a, b)
		}
	case IFDiv:
		if bv {
			k := i.B.Lo
			if new(big.Int).And(k, new(big.Int).Sub(k, big.NewInt(1))).Sign() == 0 {
				body = fmt.Sprintf("(bvashr %s (_ bv%d %d))", e.int(i.A), k.BitLen()-1, e.w)
			} else {
				a, b := e.int(i.A), e.int(i.B)
				body = fmt.Sprintf("(let ((q (bvsdiv %s %s))) (ite (bvslt (bvsrem %s %s) (_ bv0 %d)) (bvsub q (_ bv1 %d)) q))", a, b, a, b, e.w, e.w)
			}
		} else {
			body = op("", "div")
		}
	case IWrap:
		a := e.int(i.A)
		if bv {
			if i.W >= e.w {
				body = a
			} else {
				ext := "zero_extend"
				if i.S {
					ext = "sign_extend"
				}
				body = fmt.Sprintf("((_ %s %d) ((_ extract %d 0) %s))", ext, e.w-i.W, i.W-1, a)
			}
		} else {
			lo, _ := TypeRange(i.W, i.S)
			m := new(big.Int).Lsh(big.NewInt(1), uint(i.W))
			body = fmt.Sprintf("(+ (mod (- %s %s) %s) %s)", a, inum(lo), m.String(), inum(lo))
		}
	case IIte:
		body = fmt.Sprintf("(ite %s %s %s)", e.bool(i.C), e.int(i.A), e.int(i.B))
	}
	sort := "Int"
	if bv {
		sort = fmt.Sprintf("(_ BitVec %d)", e.w)
	}
	e.decl = append(e.decl, fmt.Sprintf("(define-fun %s () %s %s)", n, sort, body))
	e.seenI[i.Key()] = n
	return n
}

func (e *emitter) bool(b *B) string {
	switch b.Op {
	case BConst:
		if b.V {
			return "true"
		}
		return "false"
	case BVarOp:
		n := sname(b.Name)
		if !e.bvars[b.Name] {
			e.bvars[b.Name] = true
			e.decl = append(e.decl, fmt.Sprintf("(declare-fun %s () Bool)", n))
		}
		return n
	case BNot:
		return "(not " + e.bool(b.A) + ")"
	case BAnd:
		return "(and " + e.bool(b.A) + " " + e.bool(b.C) + ")"
	case BOr:
		return "(or " + e.bool(b.A) + " " + e.bool(b.C) + ")"
	case RLe0:
		return "(<= " + e.real(b.P) + " 0.0)"
	case RLt0:
		return "(< " + e.real(b.P) + " 0.0)"
	case REq0:
		return "(= " + e.real(b.P) + " 0.0)"
	}
	x, y := e.int(b.X), e.int(b.Y)
	o := map[BOp][2]string{ILe: {"<=", "bvsle"}, ILt: {"<", "bvslt"}, IEq: {"=", "="}}[b.Op]
	f := o[0]
	if e.mode == BV {
		f = o[1]
	}
	return "(" + f + " " + x + " " + y + ")"
}

// features of a set of constraints
type feat struct {
	real, ints, nonlin bool
	bits               int
	vars               map[string]bool
	seenI              map[*I]bool
	seenA              map[int32]bool
	c                  *Ctx
}

func (f *feat) int(i *I) {
	if f.seenI[i] {
		return
	}
	f.seenI[i] = true
	if n := i.Lo.BitLen(); n > f.bits {
		f.bits = n
	}
	if n := i.Hi.BitLen(); n > f.bits {
		f.bits = n
	}
	f.ints = true
	if i.Op == IVarOp {
		f.vars["i:"+i.Name] = true
	}
	if i.Op == IFloor {
		f.real = true
		f.realp(i.P)
	}
	if i.Op == IMul && !i.A.IsConst() && !i.B.IsConst() {
		f.nonlin = true
	}
	if (i.Op == IQuo || i.Op == IRem) && !i.B.IsConst() {
		f.nonlin = true
	}
	if i.A != nil {
		f.int(i.A)
	}
	if i.B != nil {
		f.int(i.B)
	}
	if i.C != nil {
		f.bool(i.C)
	}
}

func (f *feat) realp(p *R) {
	f.real = true
	for _, t := range p.t {
		if t.m == 0 {
			continue
		}
		mm := f.c.monos[t.m]
		if mm.deg > 1 {
			f.nonlin = true
		}
		for _, x := range mm.f {
			if f.seenA[x.a] {
				continue
			}
			f.seenA[x.a] = true
			a := f.c.Atoms[x.a]
			switch a.Kind {
			case AVar:
				f.vars["r:"+a.Name] = true
			case AInt:
				f.int(a.I)
			case AInv, ASqrt, AFn, ADef:
				f.nonlin = true
				f.realp(a.P)
				if a.Q != nil {
					f.realp(a.Q)
				}
			case AIte:
				f.bool(a.B)
				f.realp(a.P)
				f.realp(a.Q)
			}
		}
	}
}

func (f *feat) bool(b *B) {
	switch b.Op {
	case BVarOp:
		f.vars["b:"+b.Name] = true
	case BNot:
		f.bool(b.A)
	case BAnd, BOr:
		f.bool(b.A)
		f.bool(b.C)
	case RLe0, RLt0, REq0:
		f.realp(b.P)
	case ILe, ILt, IEq:
		f.int(b.X)
		f.int(b.Y)
	}
}

func (c *Ctx) newFeat() *feat {
	return &feat{vars: map[string]bool{}, seenI: map[*I]bool{}, seenA: map[int32]bool{}, c: c}
}

// VarsOf lists the inputs a boolean depends on.
func (c *Ctx) VarsOf(b *B) map[string]bool {
	f := c.newFeat()
	f.bool(b)
	return f.vars
}

// slice keeps the constraints connected to the goal through shared inputs.
func (c *Ctx) slicePC(pc []*B, pcVars []map[string]bool, goal *B) []*B {
	need := c.VarsOf(goal)
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i := range pc {
			if used[i] {
				continue
			}
			for v := range pcVars[i] {
				if need[v] {
					used[i] = true
					changed = true
					for w := range pcVars[i] {
						need[w] = true
					}
					break
				}
			}
		}
	}
	var out []*B
	for i := range pc {
		if used[i] {
			out = append(out, pc[i])
		}
	}
	return out
}

// Check decides satisfiability of the conjunction in the given mode.
func (s *Solver) Check(c *Ctx, cs []*B, mode Mode) (Result, *Model) {
	for _, b := range cs {
		if b.Op == BConst && !b.V {
			return Unsat, nil
		}
	}
	f := c.newFeat()
	for _, b := range cs {
		f.bool(b)
	}
	e := &emitter{c: c, mode: mode, seenA: map[int]bool{}, seenI: map[string]string{}, seenM: map[int32]bool{},
		rvars: map[string]bool{}, ivars: map[string]*I{}, bvars: map[string]bool{}}
	if mode == BV {
		e.w = f.bits + 2
	}
	var asserts []string
	for _, b := range cs {
		if b.Op == BConst {
			continue
		}
		asserts = append(asserts, e.bool(b))
	}
	if e.err != nil {
		return Unknown, nil
	}
	var sb strings.Builder
	sb.WriteString("(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n")
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", s.Timeout)
	for _, d := range e.decl {
		sb.WriteString(d)
		sb.WriteByte('\n')
	}
	for _, d := range e.defs {
		sb.WriteString("(assert " + d + ")\n")
	}
	for _, a := range asserts {
		sb.WriteString("(assert " + a + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	script := sb.String()
	if r, ok := s.cache[script]; ok {
		return r.r, r.m
	}
	t0 := time.Now()
	out, err := s.run(script)
	s.Queries++
	res := Unknown
	var model *Model
	if err == nil && !strings.Contains(out, "(error") {
		first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
		switch first {
		case "unsat":
			res = Unsat
		case "sat":
			res = Sat
		}
	} else if strings.Contains(out, "(error") && s.LogTo != nil {
		fmt.Fprintln(s.LogTo, "; ERROR", out)
	}
	if res == Sat {
		model = NewModel()
		var names []string
		var kinds []byte
		for n := range e.rvars {
			names = append(names, n)
		}
		sort.Strings(names)
		for range names {
			kinds = append(kinds, 'r')
		}
		k := len(names)
		for n := range e.ivars {
			names = append(names, n)
		}
		sort.Strings(names[k:])
		for len(kinds) < len(names) {
			kinds = append(kinds, 'i')
		}
		k = len(names)
		for n := range e.bvars {
			names = append(names, n)
		}
		sort.Strings(names[k:])
		for len(kinds) < len(names) {
			kinds = append(kinds, 'b')
		}
		if len(names) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, n := range names {
				q.WriteString(sname(n) + " ")
			}
			q.WriteString("))")
			out, err := s.run(q.String())
			if err == nil && !strings.Contains(out, "(error") {
				vals := parseValues(out, len(names))
				if vals != nil {
					for i, n := range names {
						switch kinds[i] {
						case 'r':
							model.R[n] = toFloat(vals[i])
						case 'i':
							model.I[n] = toInt(vals[i], e.w)
						case 'b':
							model.B[n] = vals[i] != nil && vals[i].atom == "true"
						}
					}
				} else {
					model = nil
				}
			} else {
				model = nil
			}
		}
	}
	if model != nil && len(e.angles) > 0 {
		s.fixAngles(e, model)
	}
	s.Time += time.Since(t0)
	s.Res[res]++
	s.cache[script] = cached{res, model}
	return res, model
}

// angle is a variable that occurs only under sine and cosine.
type angle struct {
	v      *Atom
	k      float64
	sn, cn string
}

// fixAngles gives angle variables the value their sine and cosine determine.
func (s *Solver) fixAngles(e *emitter, m *Model) {
	for _, a := range e.angles {
		out, err := s.run("(get-value (" + a.sn + " " + a.cn + "))")
		if err != nil || strings.Contains(out, "(error") {
			return
		}
		vals := parseValues(out, 2)
		if vals == nil {
			return
		}
		t := math.Atan2(toFloat(vals[0]), toFloat(vals[1]))
		for _, n := range []float64{0, 1, -1, 2, -2} {
			x := (t + 2*math.Pi*n) / a.k
			if x >= a.v.Lo && x <= a.v.Hi {
				m.R[a.v.Name] = x
				break
			}
		}
	}
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string, i *int) *sexp {
	for *i < len(s) && (s[*i] == ' ' || s[*i] == '\n' || s[*i] == '\t' || s[*i] == '\r') {
		*i++
	}
	if *i >= len(s) {
		return nil
	}
	if s[*i] == '(' {
		*i++
		r := &sexp{}
		for {
			for *i < len(s) && (s[*i] == ' ' || s[*i] == '\n' || s[*i] == '\t') {
				*i++
			}
			if *i >= len(s) {
				return r
			}
			if s[*i] == ')' {
				*i++
				return r
			}
			r.list = append(r.list, parseSexp(s, i))
		}
	}
	if s[*i] == '|' {
		j := strings.IndexByte(s[*i+1:], '|')
		r := &sexp{atom: s[*i : *i+j+2]}
		*i += j + 2
		return r
	}
	st := *i
	for *i < len(s) && !strings.ContainsRune(" \n\t()", rune(s[*i])) {
		*i++
	}
	return &sexp{atom: s[st:*i]}
}

func parseValues(out string, n int) []*sexp {
	i := 0
	r := parseSexp(out, &i)
	if r == nil || len(r.list) != n {
		return nil
	}
	var v []*sexp
	for _, p := range r.list {
		if len(p.list) != 2 {
			return nil
		}
		v = append(v, p.list[1])
	}
	return v
}

func toFloat(s *sexp) float64 {
	if s == nil {
		return 0
	}
	if s.atom != "" {
		f, err := strconv.ParseFloat(strings.TrimSuffix(s.atom, "?"), 64)
		if err != nil {
			return 0
		}
		return f
	}
	if len(s.list) == 2 && s.list[0].atom == "-" {
		return -toFloat(s.list[1])
	}
	if len(s.list) == 3 && s.list[0].atom == "/" {
		return toFloat(s.list[1]) / toFloat(s.list[2])
	}
	return 0
}

func toInt(s *sexp, w int) int64 {
	if s == nil {
		return 0
	}
	if s.atom != "" {
		z := new(big.Int)
		switch {
		case strings.HasPrefix(s.atom, "#x"):
			z.SetString(s.atom[2:], 16)
		case strings.HasPrefix(s.atom, "#b"):
			z.SetString(s.atom[2:], 2)
		default:
			z.SetString(strings.TrimSuffix(s.atom, ".0"), 10)
			return z.Int64()
		}
		if z.BitLen() == w {
			z.Sub(z, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		return z.Int64()
	}
	if len(s.list) == 2 && s.list[0].atom == "-" {
		return -toInt(s.list[1], w)
	}
	if len(s.list) == 3 && s.list[0].atom == "_" && strings.HasPrefix(s.list[1].atom, "bv") {
		z, _ := new(big.Int).SetString(s.list[1].atom[2:], 10)
		if z.BitLen() == w {
			z.Sub(z, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		return z.Int64()
	}
	return 0
}

// Features summarises a constraint set: uses reals, has non-linear terms, and
// the integer bit width needed.
func (c *Ctx) Features(cs []*B) (real, nonlin bool, bits int) {
	f := c.newFeat()
	for _, b := range cs {
		f.bool(b)
	}
	return f.real, f.nonlin, f.bits
}

// SlicePC keeps constraints connected to the goal.
func (c *Ctx) SlicePC(pc []*B, pcVars []map[string]bool, goal *B) []*B {
	return c.slicePC(pc, pcVars, goal)
}
