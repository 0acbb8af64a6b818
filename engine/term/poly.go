// Package term holds the symbolic terms of the encoder: boolean, integer and
// real terms. Reals are kept as polynomials over atoms (inputs and opaque
// function applications); integers are mathematical integers with explicit
// machine wrap-around nodes and interval information.
package term

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Prec is the precision of polynomial coefficients. Program constants are
// float64 values, so sums of products of a handful of them are exact.
const Prec = 320

// coefficients below this magnitude are rounding residue of the Prec-bit
// coefficient arithmetic (never of the program's own constants)
var tiny = new(big.Float).SetPrec(Prec).SetMantExp(big.NewFloat(1), -200)

type AtomKind int

const (
	AVar  AtomKind = iota
	AInt           // to_real of an integer term
	AInv           // 1/p, p != 0
	ASqrt          // sqrt(p), p >= 0
	AFn            // fn(p) or fn(p,q), uninterpreted apart from range
	AIte           // ite(b,p,q)
	ADef           // name for a polynomial kept out of line (v = p*q)
)

type Atom struct {
	ID     int
	Kind   AtomKind
	Name   string // variable or function name
	P, Q   *R
	B      *B
	I      *I
	Lo, Hi float64
}

type factor struct{ a, e int32 }

type mono struct {
	f   []factor
	deg int
}

type pterm struct {
	m int32
	c *big.Float
}

// R is a real-valued polynomial. Immutable.
type R struct {
	t   []pterm // sorted by m
	key string
	// lb is a known lower bound (sums of squares), valid when hasLB
	lb    float64
	hasLB bool
}

func (p *R) lower() (float64, bool) {
	if p.hasLB {
		return p.lb, true
	}
	if p.IsConst() {
		v := p.ConstVal()
		return v - 1e-12*math.Abs(v), true
	}
	return 0, false
}

// Ctx owns all terms of one execution path.
type Ctx struct {
	Atoms   []*Atom
	atomKey map[string]*Atom
	monos   []mono
	monoKey map[string]int32
	mulTab  map[[2]int32]*R
	ibase   map[string]*I
	bbase   map[string]*B
	IVars   []*I
	BVars   []*B
	fresh   int
	MaxPoly int
	one     *R
	zero    *R
}

func NewCtx() *Ctx {
	c := &Ctx{atomKey: map[string]*Atom{}, monoKey: map[string]int32{}, mulTab: map[[2]int32]*R{},
		ibase: map[string]*I{}, bbase: map[string]*B{}, MaxPoly: 4000}
	c.internMono(nil)
	c.zero = &R{}
	c.one = c.RConst(1)
	return c
}

func (c *Ctx) internMono(f []factor) int32 {
	var sb strings.Builder
	d := 0
	for _, x := range f {
		sb.WriteString(strconv.Itoa(int(x.a)))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(int(x.e)))
		sb.WriteByte(' ')
		d += int(x.e)
	}
	k := sb.String()
	if id, ok := c.monoKey[k]; ok {
		return id
	}
	id := int32(len(c.monos))
	c.monos = append(c.monos, mono{append([]factor(nil), f...), d})
	c.monoKey[k] = id
	return id
}

func nf() *big.Float { return new(big.Float).SetPrec(Prec) }

func (c *Ctx) RConst(v float64) *R {
	if v == 0 {
		return &R{}
	}
	return &R{t: []pterm{{0, nf().SetFloat64(v)}}}
}

func (c *Ctx) RBig(v *big.Float) *R {
	if v.Sign() == 0 {
		return &R{}
	}
	return &R{t: []pterm{{0, nf().Set(v)}}}
}

func (c *Ctx) addAtom(key string, a *Atom) *Atom {
	if x, ok := c.atomKey[key]; ok {
		return x
	}
	a.ID = len(c.Atoms)
	c.Atoms = append(c.Atoms, a)
	c.atomKey[key] = a
	return a
}

func (c *Ctx) RAtom(a *Atom) *R {
	return &R{t: []pterm{{c.internMono([]factor{{int32(a.ID), 1}}), nf().SetInt64(1)}}}
}

// RVar declares a real input with bounds.
func (c *Ctx) RVar(name string, lo, hi float64) *R {
	a := c.addAtom("v:"+name, &Atom{Kind: AVar, Name: name, Lo: lo, Hi: hi})
	return c.RAtom(a)
}

func (c *Ctx) Fresh(prefix string) string {
	c.fresh++
	return fmt.Sprintf("%s!%d", prefix, c.fresh)
}

// Key is a canonical text of the polynomial.
func (p *R) Key() string {
	if p.key == "" {
		var sb strings.Builder
		sb.WriteByte('{')
		for _, t := range p.t {
			sb.WriteString(strconv.Itoa(int(t.m)))
			sb.WriteByte(':')
			sb.WriteString(t.c.Text('p', 0))
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
		p.key = sb.String()
	}
	return p.key
}

// looseKey is Key with coefficients rounded to 42 bits: arguments of
// transcendental functions that differ by rounding only share one atom.
func (p *R) looseKey() string {
	var sb strings.Builder
	sb.WriteByte('{')
	for _, t := range p.t {
		sb.WriteString(strconv.Itoa(int(t.m)))
		sb.WriteByte(':')
		sb.WriteString(new(big.Float).SetPrec(42).Set(t.c).Text('p', 0))
		sb.WriteByte(';')
	}
	sb.WriteByte('}')
	return sb.String()
}

func (p *R) IsConst() bool { return len(p.t) == 0 || len(p.t) == 1 && p.t[0].m == 0 }
func (p *R) Len() int      { return len(p.t) }

func (p *R) ConstVal() float64 {
	if len(p.t) == 0 {
		return 0
	}
	v, _ := p.t[0].c.Float64()
	return v
}

func (c *Ctx) constPart(p *R) *big.Float {
	if len(p.t) > 0 && p.t[0].m == 0 {
		return p.t[0].c
	}
	return nf()
}

func (c *Ctx) Add(p, q *R) *R {
	r := c.add(p, q)
	if x, ok := p.lower(); ok && !r.hasLB && !r.IsConst() {
		if y, ok := q.lower(); ok && r != p && r != q {
			r.lb, r.hasLB = x+y, true
		}
	}
	return r
}

func (c *Ctx) add(p, q *R) *R {
	if len(p.t) == 0 {
		return q
	}
	if len(q.t) == 0 {
		return p
	}
	r := &R{t: make([]pterm, 0, len(p.t)+len(q.t))}
	i, j := 0, 0
	for i < len(p.t) || j < len(q.t) {
		switch {
		case j >= len(q.t) || i < len(p.t) && p.t[i].m < q.t[j].m:
			r.t = append(r.t, p.t[i])
			i++
		case i >= len(p.t) || q.t[j].m < p.t[i].m:
			r.t = append(r.t, q.t[j])
			j++
		default:
			s := nf().Add(p.t[i].c, q.t[j].c)
			if s.Sign() != 0 && nf().Abs(s).Cmp(tiny) > 0 {
				r.t = append(r.t, pterm{p.t[i].m, s})
			}
			i++
			j++
		}
	}
	return r
}

func (c *Ctx) Neg(p *R) *R {
	r := &R{t: make([]pterm, len(p.t))}
	for i, t := range p.t {
		r.t[i] = pterm{t.m, nf().Neg(t.c)}
	}
	return r
}

func (c *Ctx) Sub(p, q *R) *R { return c.Add(p, c.Neg(q)) }

func (c *Ctx) scale(p *R, k *big.Float) *R {
	if k.Sign() == 0 {
		return &R{}
	}
	r := &R{t: make([]pterm, 0, len(p.t))}
	for _, t := range p.t {
		s := nf().Mul(t.c, k)
		if nf().Abs(s).Cmp(tiny) > 0 {
			r.t = append(r.t, pterm{t.m, s})
		}
	}
	if p.hasLB && k.Sign() > 0 {
		f, _ := k.Float64()
		r.lb, r.hasLB = p.lb*f*(1-1e-12*math.Copysign(1, p.lb)), true
	}
	return r
}

// Mul multiplies two polynomials, naming the result when it grows too large.
func (c *Ctx) Mul(p, q *R) *R {
	if len(p.t) == 0 || len(q.t) == 0 {
		return &R{}
	}
	if p.IsConst() {
		return c.scale(q, p.t[0].c)
	}
	if q.IsConst() {
		return c.scale(p, q.t[0].c)
	}
	r := c.mul(p, q)
	if !r.IsConst() && (p == q || p.hasLB && q.hasLB && p.lb >= 0 && q.lb >= 0 || len(p.t) == len(q.t) && len(p.t) <= 64 && p.Key() == q.Key()) {
		if r != p && r != q && !r.hasLB {
			r.lb, r.hasLB = 0, true
		}
	}
	return r
}

func (c *Ctx) mul(p, q *R) *R {
	if len(p.t)*len(q.t) > c.MaxPoly*8 {
		return c.defMul(p, q)
	}
	acc := map[int32]*big.Float{}
	for _, a := range p.t {
		for _, b := range q.t {
			k := nf().Mul(a.c, b.c)
			mp := c.mulMono(a.m, b.m)
			for _, t := range mp.t {
				v := k
				if len(mp.t) > 1 || t.c.Cmp(c.one.t[0].c) != 0 {
					v = nf().Mul(k, t.c)
				}
				if x, ok := acc[t.m]; ok {
					x.Add(x, v)
				} else {
					acc[t.m] = nf().Set(v)
				}
			}
		}
	}
	r := fromAcc(acc)
	return r
}

func fromAcc(acc map[int32]*big.Float) *R {
	r := &R{t: make([]pterm, 0, len(acc))}
	for m, v := range acc {
		if v.Sign() != 0 && nf().Abs(v).Cmp(tiny) > 0 {
			r.t = append(r.t, pterm{m, v})
		}
	}
	sort.Slice(r.t, func(i, j int) bool { return r.t[i].m < r.t[j].m })
	return r
}

// Sum adds many polynomials scaled by float constants in one pass.
func (c *Ctx) LinComb(ps []*R, ks []*big.Float) *R {
	acc := map[int32]*big.Float{}
	for i, p := range ps {
		if ks[i].Sign() == 0 {
			continue
		}
		for _, t := range p.t {
			v := nf().Mul(t.c, ks[i])
			if x, ok := acc[t.m]; ok {
				x.Add(x, v)
			} else {
				acc[t.m] = v
			}
		}
	}
	return fromAcc(acc)
}

func (c *Ctx) defMul(p, q *R) *R {
	lp, hp := c.Range(p)
	lq, hq := c.Range(q)
	lo, hi := mulIv(lp, hp, lq, hq)
	k := "d:" + p.Key() + "*" + q.Key()
	return c.RAtom(c.addAtom(k, &Atom{Kind: ADef, P: p, Q: q, Lo: lo, Hi: hi}))
}

func (c *Ctx) mulMono(a, b int32) *R {
	if a == 0 {
		return &R{t: []pterm{{b, c.one.t[0].c}}}
	}
	if b == 0 {
		return &R{t: []pterm{{a, c.one.t[0].c}}}
	}
	if a > b {
		a, b = b, a
	}
	if r, ok := c.mulTab[[2]int32{a, b}]; ok {
		return r
	}
	fa, fb := c.monos[a].f, c.monos[b].f
	out := make([]factor, 0, len(fa)+len(fb))
	i, j := 0, 0
	for i < len(fa) || j < len(fb) {
		switch {
		case j >= len(fb) || i < len(fa) && fa[i].a < fb[j].a:
			out = append(out, fa[i])
			i++
		case i >= len(fa) || fb[j].a < fa[i].a:
			out = append(out, fb[j])
			j++
		default:
			out = append(out, factor{fa[i].a, fa[i].e + fb[j].e})
			i++
			j++
		}
	}
	r := c.normMono(out)
	c.mulTab[[2]int32{a, b}] = r
	return r
}

// normMono applies the rewriting rules that keep products canonical:
// sqrt(p)^2 = p, sin^2 = 1-cos^2, x*(1/x) = 1, exp(a)exp(b) = exp(a+b).
func (c *Ctx) normMono(f []factor) *R {
	for i, x := range f {
		a := c.Atoms[x.a]
		switch {
		case a.Kind == ASqrt && x.e >= 2:
			return c.Mul(c.powR(a.P, int(x.e/2)), c.dropFactor(f, i, x.e%2))
		case a.Kind == AFn && a.Name == "sin" && x.e >= 2:
			cs := c.Fn("cos", a.P, nil)
			return c.Mul(c.powR(c.Sub(c.one, c.Mul(cs, cs)), int(x.e/2)), c.dropFactor(f, i, x.e%2))
		case a.Kind == AInv && len(a.P.t) == 1:
			// 1/(single monomial): cancel common factors
			den := c.monos[a.P.t[0].m].f
			if len(den) == 1 && den[0].e == 1 {
				for j, y := range f {
					if y.a == den[0].a {
						k := x.e
						if y.e < k {
							k = y.e
						}
						g := append([]factor(nil), f...)
						g[i].e -= k
						g[j].e -= k
						h := g[:0]
						for _, z := range g {
							if z.e > 0 {
								h = append(h, z)
							}
						}
						return c.normMono(append([]factor(nil), h...))
					}
				}
			}
		}
	}
	// exp merging
	nexp, last := 0, -1
	for i, x := range f {
		a := c.Atoms[x.a]
		if a.Kind == AFn && a.Name == "exp" {
			nexp += int(x.e)
			last = i
		}
	}
	if nexp > 1 && last >= 0 {
		sum := c.zero
		var rest []factor
		for _, x := range f {
			a := c.Atoms[x.a]
			if a.Kind == AFn && a.Name == "exp" {
				sum = c.Add(sum, c.Mul(a.P, c.RConst(float64(x.e))))
			} else {
				rest = append(rest, x)
			}
		}
		return c.Mul(c.Fn("exp", sum, nil), c.normMono(rest))
	}
	return &R{t: []pterm{{c.internMono(f), c.one.t[0].c}}}
}

func (c *Ctx) dropFactor(f []factor, i int, e int32) *R {
	var g []factor
	for j, x := range f {
		if j == i {
			if e == 0 {
				continue
			}
			x.e = e
		}
		g = append(g, x)
	}
	return c.normMono(g)
}

func (c *Ctx) powR(p *R, n int) *R {
	r := c.one
	for i := 0; i < n; i++ {
		r = c.Mul(r, p)
	}
	return r
}

// PowInt raises p to a non-negative integer power.
func (c *Ctx) PowInt(p *R, n int) *R { return c.powR(p, n) }

// Inv is 1/p for p known to be non-zero. The denominator is scaled so its
// leading coefficient is 1.
func (c *Ctx) Inv(p *R) *R {
	if p.IsConst() {
		return c.RBig(nf().Quo(nf().SetInt64(1), p.t[0].c))
	}
	lead := p.t[len(p.t)-1].c
	k := nf().Quo(nf().SetInt64(1), lead)
	q := c.scale(p, k)
	// 1/inv(x) = x
	if len(q.t) == 1 {
		f := c.monos[q.t[0].m].f
		if len(f) == 1 && f[0].e == 1 && c.Atoms[f[0].a].Kind == AInv {
			return c.scale(c.Atoms[f[0].a].P, k)
		}
		// exp
		if len(f) == 1 && f[0].e == 1 && c.Atoms[f[0].a].Kind == AFn && c.Atoms[f[0].a].Name == "exp" {
			return c.scale(c.Fn("exp", c.Neg(c.Atoms[f[0].a].P), nil), k)
		}
		if len(f) > 1 || len(f) == 1 && f[0].e > 1 {
			// split the product
			r := c.RBig(k)
			for _, x := range f {
				ia := c.Inv(c.RAtom(c.Atoms[x.a]))
				for e := int32(0); e < x.e; e++ {
					r = c.Mul(r, ia)
				}
			}
			return r
		}
	}
	lo, hi := c.Range(q)
	alo, ahi := math.Inf(-1), math.Inf(1)
	if lo > 0 {
		alo, ahi = 1/hi, 1/lo
	} else if hi < 0 {
		alo, ahi = 1/hi, 1/lo
	}
	a := c.addAtom("inv:"+q.Key(), &Atom{Kind: AInv, P: q, Lo: alo, Hi: ahi})
	return c.scale(c.RAtom(a), k)
}

// InvAbove is Inv for p known to be at least lo > 0.
func (c *Ctx) InvAbove(p *R, lo float64) *R {
	r := c.Inv(p)
	if len(r.t) == 1 {
		f := c.monos[r.t[0].m].f
		if len(f) == 1 && f[0].e == 1 && c.Atoms[f[0].a].Kind == AInv {
			a := c.Atoms[f[0].a]
			k, _ := r.t[0].c.Float64() // r = k*inv(q), 0 < r <= 1/lo
			hi := math.Abs(1 / (lo * k))
			if k > 0 {
				a.Lo, a.Hi = math.Max(a.Lo, 0), math.Min(a.Hi, hi)
			} else {
				a.Lo, a.Hi = math.Max(a.Lo, -hi), math.Min(a.Hi, 0)
			}
		}
	}
	return r
}

// Prune drops terms whose total contribution is at most budget, returning what it dropped at most.
func (c *Ctx) Prune(p *R, budget float64) (*R, float64) {
	per := budget / float64(len(p.t)+1)
	out := &R{}
	dropped := 0.0
	for _, t := range p.t {
		lo, hi := c.monoRange(t.m)
		k, _ := t.c.Float64()
		m := math.Abs(k) * math.Max(math.Abs(lo), math.Abs(hi))
		if m <= per && !math.IsNaN(m) {
			dropped += m
			continue
		}
		out.t = append(out.t, t)
	}
	if dropped == 0 {
		return p, 0
	}
	return out, dropped
}

// UnboundedInv lists the reciprocal atoms of p whose range is not known.
func (c *Ctx) UnboundedInv(p *R) []*Atom {
	seen := map[int32]bool{}
	var out []*Atom
	var walk func(q *R)
	walk = func(q *R) {
		for _, t := range q.t {
			for _, f := range c.monos[t.m].f {
				if seen[f.a] {
					continue
				}
				seen[f.a] = true
				a := c.Atoms[f.a]
				if a.Kind == AInv {
					if math.IsInf(a.Lo, 0) || math.IsInf(a.Hi, 0) {
						out = append(out, a)
					}
					walk(a.P)
				}
			}
		}
	}
	walk(p)
	return out
}

func (c *Ctx) Sqrt(p *R) *R {
	if p.IsConst() {
		v := c.constPart(p)
		if v.Sign() <= 0 {
			return &R{}
		}
		return c.RBig(nf().Sqrt(v))
	}
	// sqrt(k * q) with k>0 leading coefficient: keep sqrt(k)*sqrt(q)
	lead := p.t[len(p.t)-1].c
	k := nf().Abs(lead)
	q := c.scale(p, nf().Quo(nf().SetInt64(1), k))
	lo, hi := c.Range(q)
	a := c.addAtom("sqrt:"+q.Key(), &Atom{Kind: ASqrt, P: q, Lo: math.Sqrt(math.Max(lo, 0)), Hi: math.Sqrt(math.Max(hi, 0))})
	return c.scale(c.RAtom(a), nf().Sqrt(k))
}

// waveRange encloses sine or cosine over an interval.
func waveRange(name string, lo, hi float64) (float64, float64) {
	if !(hi-lo < 6) || math.Abs(lo) > 1e6 || math.Abs(hi) > 1e6 {
		return -1, 1
	}
	shift, f := 0.0, math.Cos
	if name == "sin" {
		shift, f = 0.25, math.Sin
	}
	// maxima at shift + whole turns, minima half a turn further
	a, b := lo/(2*math.Pi)-shift, hi/(2*math.Pi)-shift
	l, h := math.Min(f(lo), f(hi))-1e-15, math.Max(f(lo), f(hi))+1e-15
	if math.Floor(a-1e-9) != math.Floor(b+1e-9) {
		h = 1
	}
	if math.Floor(a-0.5-1e-9) != math.Floor(b-0.5+1e-9) {
		l = -1
	}
	return math.Max(l, -1), math.Min(h, 1)
}

// single is the function atom of that name p consists of.
func (c *Ctx) single(p *R, name string) *Atom {
	var t *pterm
	for k := range p.t {
		v, _ := p.t[k].c.Float64()
		if p.t[k].m == 0 && math.Abs(v) < 1e-25 {
			continue
		}
		// 1 up to the working precision
		d, _ := nf().Sub(p.t[k].c, nf().SetInt64(1)).Float64()
		if t != nil || math.Abs(d) > 1e-25 {
			return nil
		}
		t = &p.t[k]
	}
	if t == nil {
		return nil
	}
	f := c.monos[t.m].f
	if len(f) == 1 && f[0].e == 1 && c.Atoms[f[0].a].Kind == AFn && c.Atoms[f[0].a].Name == name {
		return c.Atoms[f[0].a]
	}
	return nil
}

// Fn applies a named function.
func (c *Ctx) Fn(name string, p, q *R) *R {
	key := "f:" + name + p.looseKey()
	if q != nil {
		key += q.looseKey()
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	pl, ph := c.Range(p)
	switch name {
	case "exp":
		if p.IsConst() && p.ConstVal() == 0 {
			return c.one
		}
		if len(p.t) == 1 && q == nil {
			f := c.monos[p.t[0].m].f
			k, _ := p.t[0].c.Float64()
			if len(f) == 1 && f[0].e == 1 && c.Atoms[f[0].a].Kind == AFn && c.Atoms[f[0].a].Name == "log" && k == math.Trunc(k) && math.Abs(k) <= 4 {
				x := c.Atoms[f[0].a].P
				if k < 0 {
					x, k = c.Inv(x), -k
				}
				return c.powR(x, int(k))
			}
		}
		lo, hi = math.Exp(pl), math.Exp(ph)
	case "log":
		if pl > 0 {
			lo = math.Log(pl)
		}
		if ph > 0 {
			hi = math.Log(ph)
		}
	case "sin", "cos":
		// sin(-x) = -sin(x), cos(-x)=cos(x): canonical leading sign
		if len(p.t) > 0 && p.t[len(p.t)-1].c.Sign() < 0 {
			if name == "sin" {
				return c.Neg(c.Fn("sin", c.Neg(p), nil))
			}
			return c.Fn("cos", c.Neg(p), nil)
		}
		lo, hi = waveRange(name, pl, ph)
	case "tanh":
		lo, hi = -1, 1
	case "atan":
		if a := c.single(p, "tan"); a != nil && q == nil {
			// atan(tan(u)) = u for u strictly between the poles
			if l, h := c.Range(a.P); l > -math.Pi/2 && h < math.Pi/2 {
				return a.P
			}
		}
		lo, hi = math.Atan(pl), math.Atan(ph)
	case "tan":
		if a := c.single(p, "atan"); a != nil {
			return a.P
		}
		if pl > -math.Pi/2 && ph < math.Pi/2 {
			lo, hi = math.Tan(pl), math.Tan(ph)
		}
	case "asin":
		lo, hi = -math.Pi/2, math.Pi/2
	case "acos":
		lo, hi = 0, math.Pi
	case "atan2":
		lo, hi = -math.Pi, math.Pi
	case "erf":
		lo, hi = -1, 1
	}
	if p.IsConst() && (q == nil || q.IsConst()) {
		qv := 0.0
		if q != nil {
			qv = q.ConstVal()
		}
		return c.RConst(applyFn(name, p.ConstVal(), qv))
	}
	return c.RAtom(c.addAtom(key, &Atom{Kind: AFn, Name: name, P: p, Q: q, Lo: lo, Hi: hi}))
}

// RIte builds ite(b,p,q).
func (c *Ctx) RIte(b *B, p, q *R) *R {
	if b.Op == BConst {
		if b.V {
			return p
		}
		return q
	}
	if p.Key() == q.Key() {
		return p
	}
	pl, ph := c.Range(p)
	ql, qh := c.Range(q)
	return c.RAtom(c.addAtom("ite:"+b.Key()+p.Key()+q.Key(), &Atom{Kind: AIte, B: b, P: p, Q: q, Lo: math.Min(pl, ql), Hi: math.Max(ph, qh)}))
}

// RInt is the real value of an integer term.
func (c *Ctx) RInt(i *I) *R {
	if i.Op == IConst {
		f := nf().SetInt(i.Lo)
		return c.RBig(f)
	}
	if i.Op == IAdd || i.Op == ISub {
		x, y := c.RInt(i.A), c.RInt(i.B)
		if i.Op == IAdd {
			return c.Add(x, y)
		}
		return c.Sub(x, y)
	}
	if i.Op == IMul && (i.A.Op == IConst || i.B.Op == IConst) {
		return c.Mul(c.RInt(i.A), c.RInt(i.B))
	}
	lo, _ := new(big.Float).SetInt(i.Lo).Float64()
	hi, _ := new(big.Float).SetInt(i.Hi).Float64()
	return c.RAtom(c.addAtom("int:"+i.Key(), &Atom{Kind: AInt, I: i, Lo: lo, Hi: hi}))
}

func mulIv(a, b, x, y float64) (float64, float64) {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, u := range [2]float64{a, b} {
		for _, v := range [2]float64{x, y} {
			p := u * v
			if u == 0 || v == 0 {
				p = 0
			}
			lo = math.Min(lo, p)
			hi = math.Max(hi, p)
		}
	}
	return lo, hi
}

func (c *Ctx) monoRange(m int32) (float64, float64) {
	lo, hi := 1.0, 1.0
	for _, f := range c.monos[m].f {
		a := c.Atoms[f.a]
		al, ah := a.Lo, a.Hi
		pl, ph := 1.0, 1.0
		if f.e%2 == 0 {
			m1, m2 := math.Abs(al), math.Abs(ah)
			ph = math.Pow(math.Max(m1, m2), float64(f.e))
			if al <= 0 && ah >= 0 {
				pl = 0
			} else {
				pl = math.Pow(math.Min(m1, m2), float64(f.e))
			}
		} else {
			pl, ph = math.Pow(al, float64(f.e)), math.Pow(ah, float64(f.e))
		}
		lo, hi = mulIv(lo, hi, pl, ph)
	}
	return lo, hi
}

// Range is an interval enclosing p.
func (c *Ctx) Range(p *R) (float64, float64) {
	lo, hi := 0.0, 0.0
	for _, t := range p.t {
		ml, mh := c.monoRange(t.m)
		k, _ := t.c.Float64()
		a, b := mulIv(ml, mh, k, k)
		lo += a
		hi += b
	}
	if math.IsNaN(lo) {
		lo = math.Inf(-1)
	}
	if math.IsNaN(hi) {
		hi = math.Inf(1)
	}
	if p.hasLB && p.lb > lo {
		lo = p.lb
	}
	return lo, hi
}

// reduceInv uses q*inv(q) = 1 where that makes p shorter.
func (c *Ctx) reduceInv(p *R) *R {
	for _, t := range p.t {
		for _, f := range c.monos[t.m].f {
			if a := c.Atoms[f.a]; a.Kind == AInv && len(a.P.t) > 1 {
				if q := c.reduceInvBy(p, f.a, a.P); len(q.t) < len(p.t) {
					return c.reduceInv(q)
				}
			}
		}
	}
	return p
}

func (c *Ctx) reduceInvBy(p *R, id int32, q *R) *R {
	lead := q.t[len(q.t)-1]
	lf := c.monos[lead.m].f
	if len(lf) != 1 || lf[0].e != 1 {
		return p
	}
	rest := c.scale(&R{t: q.t[:len(q.t)-1]}, nf().Quo(nf().SetInt64(1), lead.c))
	one := c.RBig(nf().Quo(nf().SetInt64(1), lead.c))
	out := c.zero
	for _, t := range p.t {
		hasI, hasL := false, false
		for _, f := range c.monos[t.m].f {
			hasI = hasI || f.a == id
			hasL = hasL || f.a == lf[0].a
		}
		single := &R{t: []pterm{t}}
		if !hasI || !hasL {
			out = c.Add(out, single)
			continue
		}
		var left []factor // without one inv and one lead
		for _, f := range c.monos[t.m].f {
			if f.a == id || f.a == lf[0].a {
				f.e--
			}
			if f.e > 0 {
				left = append(left, f)
			}
		}
		base := &R{t: []pterm{{c.internMono(left), t.c}}}
		// lead*inv = one - rest*inv
		out = c.Add(out, c.Mul(base, c.Sub(one, c.Mul(rest, c.RAtom(c.Atoms[id])))))
	}
	return out
}

// ClearDenominators multiplies p by the denominators of its reciprocal atoms,
// returning the cleared polynomial and an upper bound of the factor by which
// |p| can exceed |cleared| (Inf when unknown).
func (c *Ctx) ClearDenominators(p *R) (*R, float64, bool) {
	bound := 1.0
	any := false
	for iter := 0; iter < 60; iter++ {
		// pick the inv atom with the highest id (it may nest others)
		best := int32(-1)
		for _, t := range p.t {
			for _, f := range c.monos[t.m].f {
				if c.Atoms[f.a].Kind == AInv && f.a > best {
					best = f.a
				}
			}
		}
		if best < 0 {
			return p, bound, any
		}
		any = true
		a := c.Atoms[best]
		deg := int32(0)
		for _, t := range p.t {
			for _, f := range c.monos[t.m].f {
				if f.a == best && f.e > deg {
					deg = f.e
				}
			}
		}
		pows := make([]*R, deg+1)
		pows[0] = c.one
		for i := int32(1); i <= deg; i++ {
			pows[i] = c.Mul(pows[i-1], a.P)
		}
		buckets := make([]map[int32]*big.Float, deg+1)
		for i := range buckets {
			buckets[i] = map[int32]*big.Float{}
		}
		for _, t := range p.t {
			var rest []factor
			e := int32(0)
			for _, f := range c.monos[t.m].f {
				if f.a == best {
					e = f.e
				} else {
					rest = append(rest, f)
				}
			}
			rid := c.internMono(rest)
			if x, ok := buckets[e][rid]; ok {
				x.Add(x, t.c)
			} else {
				buckets[e][rid] = nf().Set(t.c)
			}
		}
		r := c.zero
		for e := int32(0); e <= deg; e++ {
			r = c.Add(r, c.Mul(fromAcc(buckets[e]), pows[deg-e]))
		}
		p = r
		m := math.Max(math.Abs(a.Lo), math.Abs(a.Hi))
		bound *= math.Pow(math.Max(m, 1e-300), float64(deg))
		if len(p.t) > 20000 {
			return p, bound, any
		}
	}
	return p, bound, any
}

// MaxCoef is the largest coefficient magnitude.
func (p *R) MaxCoef() float64 {
	m := 0.0
	for _, t := range p.t {
		v, _ := t.c.Float64()
		m = math.Max(m, math.Abs(v))
	}
	return m
}

// Deriv differentiates p with respect to variable atom a, when no opaque atom
// depends on it (callers check).
func (c *Ctx) String(p *R) string {
	if len(p.t) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, t := range p.t {
		if i > 12 {
			fmt.Fprintf(&sb, " + ...(%d terms)", len(p.t))
			break
		}
		if i > 0 {
			sb.WriteString(" + ")
		}
		v, _ := t.c.Float64()
		fmt.Fprintf(&sb, "%.6g", v)
		for _, f := range c.monos[t.m].f {
			fmt.Fprintf(&sb, "*%s", c.atomName(c.Atoms[f.a]))
			if f.e > 1 {
				fmt.Fprintf(&sb, "^%d", f.e)
			}
		}
	}
	return sb.String()
}

func (c *Ctx) atomName(a *Atom) string {
	switch a.Kind {
	case AVar:
		return a.Name
	case AInv:
		return "inv(" + c.String(a.P) + ")"
	case ASqrt:
		return "sqrt(" + c.String(a.P) + ")"
	case AFn:
		return a.Name + "(" + c.String(a.P) + ")"
	}
	return fmt.Sprintf("a%d", a.ID)
}

// BString prints a condition for tracing.
func (c *Ctx) BString(b *B) string {
	s := fmt.Sprintf("op%d", b.Op)
	if b.P != nil {
		s += " " + c.String(b.P)
	}
	if b.A != nil {
		s += "(" + c.BString(b.A) + ")"
	}
	if b.C != nil {
		s += "(" + c.BString(b.C) + ")"
	}
	return s
}
