package term

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
)

type BOp int

const (
	BConst BOp = iota
	BVarOp
	BNot
	BAnd
	BOr
	RLe0 // P <= 0
	RLt0 // P < 0
	REq0 // P == 0
	ILe  // X <= Y
	ILt
	IEq
)

// B is a boolean term.
type B struct {
	Op   BOp
	V    bool
	Name string
	A, C *B
	P    *R
	X, Y *I
	key  string
}

var True = &B{Op: BConst, V: true, key: "T"}
var False = &B{Op: BConst, V: false, key: "F"}

func Bool(v bool) *B {
	if v {
		return True
	}
	return False
}

func (b *B) Key() string {
	if b.key == "" {
		switch b.Op {
		case BVarOp:
			b.key = "b:" + b.Name
		case BNot:
			b.key = "!(" + b.A.Key() + ")"
		case BAnd:
			b.key = "&(" + b.A.Key() + "," + b.C.Key() + ")"
		case BOr:
			b.key = "|(" + b.A.Key() + "," + b.C.Key() + ")"
		case RLe0, RLt0, REq0:
			b.key = "r" + strconv.Itoa(int(b.Op)) + b.P.Key()
		default:
			b.key = "i" + strconv.Itoa(int(b.Op)) + "(" + b.X.Key() + "," + b.Y.Key() + ")"
		}
	}
	return b.key
}

func (c *Ctx) BVar(name string) *B {
	if x, ok := c.bbase[name]; ok {
		return x
	}
	b := &B{Op: BVarOp, Name: name}
	c.bbase[name] = b
	c.BVars = append(c.BVars, b)
	return b
}

func (c *Ctx) Not(b *B) *B {
	switch b.Op {
	case BConst:
		return Bool(!b.V)
	case BNot:
		return b.A
	case RLe0: // !(p<=0) = -p<0
		return &B{Op: RLt0, P: c.Neg(b.P)}
	case RLt0:
		return &B{Op: RLe0, P: c.Neg(b.P)}
	case ILe:
		return &B{Op: ILt, X: b.Y, Y: b.X}
	case ILt:
		return &B{Op: ILe, X: b.Y, Y: b.X}
	}
	return &B{Op: BNot, A: b}
}

func (c *Ctx) And(a, b *B) *B {
	if a.Op == BConst {
		if a.V {
			return b
		}
		return False
	}
	if b.Op == BConst {
		if b.V {
			return a
		}
		return False
	}
	return &B{Op: BAnd, A: a, C: b}
}

func (c *Ctx) Or(a, b *B) *B {
	if a.Op == BConst {
		if a.V {
			return True
		}
		return b
	}
	if b.Op == BConst {
		if b.V {
			return True
		}
		return a
	}
	return &B{Op: BOr, A: a, C: b}
}

func (c *Ctx) rcmp(op BOp, p *R) *B {
	if p.IsConst() {
		v := c.constPart(p).Sign()
		switch op {
		case RLe0:
			return Bool(v <= 0)
		case RLt0:
			return Bool(v < 0)
		default:
			return Bool(v == 0)
		}
	}
	if z, _, ok := c.snapInt(p, true); ok {
		zero := c.IConstV(0)
		switch op {
		case RLe0:
			return c.ILeT(z, zero)
		case RLt0:
			return c.ILtT(z, zero)
		default:
			return c.IEqT(z, zero)
		}
	}
	lo, hi := c.Range(p)
	m := 1e-9 * (1 + p.MaxCoef())
	switch {
	case hi < -m:
		return Bool(op != REq0)
	case lo > m:
		return False
	}
	return &B{Op: op, P: p}
}

func (c *Ctx) Le(p, q *R) *B { return c.rcmp(RLe0, c.Sub(p, q)) }
func (c *Ctx) Lt(p, q *R) *B { return c.rcmp(RLt0, c.Sub(p, q)) }
func (c *Ctx) Eq(p, q *R) *B { return c.rcmp(REq0, c.Sub(p, q)) }

// raw comparison that is always kept for the solver
func (c *Ctx) LeRaw(p *R) *B { return &B{Op: RLe0, P: p} }
func (c *Ctx) LtRaw(p *R) *B { return &B{Op: RLt0, P: p} }

type IOp int

const (
	IConst IOp = iota
	IVarOp
	IAdd
	ISub
	IMul
	IQuo  // truncated
	IRem  // truncated
	IWrap // to W bits, signed if S
	IIte
	IFloor // floor of real P
	IFDiv  // floor division by positive constant
)

// I is an integer term with an interval.
type I struct {
	Op     IOp
	Name   string
	A, B   *I
	C      *B
	P      *R
	W      int
	S      bool
	Lo, Hi *big.Int
	key    string
}

func (i *I) Key() string {
	if i.key == "" {
		switch i.Op {
		case IConst:
			i.key = i.Lo.String()
		case IVarOp:
			i.key = "i:" + i.Name
		case IIte:
			i.key = "ite(" + i.C.Key() + "," + i.A.Key() + "," + i.B.Key() + ")"
		case IFloor:
			i.key = "floor(" + i.P.Key() + ")"
		case IWrap:
			i.key = fmt.Sprintf("wrap%d%v(%s)", i.W, i.S, i.A.Key())
		default:
			i.key = fmt.Sprintf("o%d(%s,%s)", i.Op, i.A.Key(), i.B.Key())
		}
	}
	return i.key
}

func (c *Ctx) IConstV(v int64) *I { return c.IBig(big.NewInt(v)) }
func (c *Ctx) IBig(v *big.Int) *I { return &I{Op: IConst, Lo: v, Hi: v} }
func (i *I) IsConst() bool        { return i.Op == IConst }

func (c *Ctx) IVar(name string, lo, hi int64) *I {
	if x, ok := c.ibase[name]; ok {
		return x
	}
	i := &I{Op: IVarOp, Name: name, Lo: big.NewInt(lo), Hi: big.NewInt(hi)}
	c.ibase[name] = i
	c.IVars = append(c.IVars, i)
	return i
}

func bmin(a ...*big.Int) *big.Int {
	r := a[0]
	for _, x := range a[1:] {
		if x.Cmp(r) < 0 {
			r = x
		}
	}
	return r
}
func bmax(a ...*big.Int) *big.Int {
	r := a[0]
	for _, x := range a[1:] {
		if x.Cmp(r) > 0 {
			r = x
		}
	}
	return r
}

// canonical linear form: sum of coef*term + const (keeps index arithmetic small)
func (c *Ctx) IAddT(a, b *I) *I {
	if a.IsConst() && b.IsConst() {
		return c.IBig(new(big.Int).Add(a.Lo, b.Lo))
	}
	if a.IsConst() && a.Lo.Sign() == 0 {
		return b
	}
	if b.IsConst() && b.Lo.Sign() == 0 {
		return a
	}
	// (x + k1) + k2
	if b.IsConst() && a.Op == IAdd && a.B.IsConst() {
		return c.IAddT(a.A, c.IBig(new(big.Int).Add(a.B.Lo, b.Lo)))
	}
	if a.IsConst() {
		return c.IAddT(b, a)
	}
	return &I{Op: IAdd, A: a, B: b, Lo: new(big.Int).Add(a.Lo, b.Lo), Hi: new(big.Int).Add(a.Hi, b.Hi)}
}

func (c *Ctx) ISubT(a, b *I) *I {
	if a.IsConst() && b.IsConst() {
		return c.IBig(new(big.Int).Sub(a.Lo, b.Lo))
	}
	if b.IsConst() {
		return c.IAddT(a, c.IBig(new(big.Int).Neg(b.Lo)))
	}
	if a.Key() == b.Key() {
		return c.IConstV(0)
	}
	return &I{Op: ISub, A: a, B: b, Lo: new(big.Int).Sub(a.Lo, b.Hi), Hi: new(big.Int).Sub(a.Hi, b.Lo)}
}

func (c *Ctx) IMulT(a, b *I) *I {
	if a.IsConst() && b.IsConst() {
		return c.IBig(new(big.Int).Mul(a.Lo, b.Lo))
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		if a.Lo.Sign() == 0 {
			return a
		}
		if a.Lo.IsInt64() && a.Lo.Int64() == 1 {
			return b
		}
	}
	p := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
	q := []*big.Int{p(a.Lo, b.Lo), p(a.Lo, b.Hi), p(a.Hi, b.Lo), p(a.Hi, b.Hi)}
	return &I{Op: IMul, A: a, B: b, Lo: bmin(q...), Hi: bmax(q...)}
}

// IQuoT is Go's truncated division; the divisor is known non-zero.
func (c *Ctx) IQuoT(a, b *I) *I {
	if a.IsConst() && b.IsConst() {
		return c.IBig(new(big.Int).Quo(a.Lo, b.Lo))
	}
	if b.IsConst() && b.Lo.IsInt64() && b.Lo.Int64() == 1 {
		return a
	}
	m := bmax(new(big.Int).Abs(a.Lo), new(big.Int).Abs(a.Hi))
	lo, hi := new(big.Int).Neg(m), m
	if a.Lo.Sign() >= 0 && b.Lo.Sign() > 0 {
		lo = new(big.Int).Quo(a.Lo, b.Hi)
		hi = new(big.Int).Quo(a.Hi, b.Lo)
	} else if b.Lo.Sign() > 0 {
		lo, hi = new(big.Int).Quo(a.Lo, b.Lo), new(big.Int).Quo(a.Hi, b.Lo)
		if lo.Sign() > 0 {
			lo = big.NewInt(0)
		}
		if hi.Sign() < 0 {
			hi = big.NewInt(0)
		}
	}
	if lo.Cmp(hi) == 0 {
		return c.IBig(lo)
	}
	return &I{Op: IQuo, A: a, B: b, Lo: lo, Hi: hi}
}

func (c *Ctx) IRemT(a, b *I) *I {
	if a.IsConst() && b.IsConst() {
		return c.IBig(new(big.Int).Rem(a.Lo, b.Lo))
	}
	m := bmax(new(big.Int).Abs(b.Lo), new(big.Int).Abs(b.Hi))
	m = new(big.Int).Sub(m, big.NewInt(1))
	lo, hi := new(big.Int).Neg(m), m
	if a.Lo.Sign() >= 0 {
		lo = big.NewInt(0)
		if a.Hi.Cmp(hi) < 0 {
			hi = a.Hi
		}
		if b.Lo.Sign() > 0 && a.Hi.Cmp(b.Lo) < 0 {
			return a
		}
	} else if a.Hi.Sign() <= 0 {
		hi = big.NewInt(0)
		if a.Lo.Cmp(lo) > 0 {
			lo = a.Lo
		}
	}
	if lo.Cmp(hi) == 0 {
		return c.IBig(lo)
	}
	return &I{Op: IRem, A: a, B: b, Lo: lo, Hi: hi}
}

// IFDivT is floor division by a positive constant (arithmetic shift).
func (c *Ctx) IFDivT(a *I, k *big.Int) *I {
	d := func(x *big.Int) *big.Int { q, _ := new(big.Int).DivMod(x, k, new(big.Int)); return q }
	if a.IsConst() {
		return c.IBig(d(a.Lo))
	}
	return &I{Op: IFDiv, A: a, B: c.IBig(k), Lo: d(a.Lo), Hi: d(a.Hi)}
}

func TypeRange(w int, signed bool) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(w-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(w)), one)
}

// Wrap reduces a to a machine integer.
func (c *Ctx) Wrap(a *I, w int, signed bool) *I {
	lo, hi := TypeRange(w, signed)
	if a.Lo.Cmp(lo) >= 0 && a.Hi.Cmp(hi) <= 0 {
		return a
	}
	if a.IsConst() {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		v := new(big.Int).Sub(a.Lo, lo)
		v.Mod(v, m)
		return c.IBig(v.Add(v, lo))
	}
	return &I{Op: IWrap, A: a, W: w, S: signed, Lo: lo, Hi: hi}
}

func (c *Ctx) IIteT(b *B, x, y *I) *I {
	if b.Op == BConst {
		if b.V {
			return x
		}
		return y
	}
	if x.Key() == y.Key() {
		return x
	}
	return &I{Op: IIte, C: b, A: x, B: y, Lo: bmin(x.Lo, y.Lo), Hi: bmax(x.Hi, y.Hi)}
}

// Floor of a real term.
func (c *Ctx) Floor(p *R) *I {
	if p.IsConst() {
		v := c.constPart(p)
		z, acc := v.Int(nil)
		if v.Sign() < 0 && acc != big.Exact {
			z.Sub(z, big.NewInt(1))
		}
		return c.IBig(z)
	}
	if q := c.reduceInv(p); q != p {
		return c.Floor(q)
	}
	// floor of an integer-valued atom
	if len(p.t) == 1 && p.t[0].m != 0 {
		f := c.monos[p.t[0].m].f
		if len(f) == 1 && f[0].e == 1 && c.Atoms[f[0].a].Kind == AInt && p.t[0].c.Cmp(c.one.t[0].c) == 0 {
			return c.Atoms[f[0].a].I
		}
	}
	if z, l, ok := c.snapInt(p, false); ok {
		return c.IFDivT(z, big.NewInt(l))
	}
	lo, hi := c.Range(p)
	big1 := func(v float64, d int64) *big.Int {
		if math.IsInf(v, 0) || math.Abs(v) > 1e15 {
			x := int64(1) << 60
			if v < 0 {
				x = -x
			}
			return big.NewInt(x)
		}
		return big.NewInt(int64(math.Floor(v)) + d)
	}
	return &I{Op: IFloor, P: p, Lo: big1(lo-1e-9, 0), Hi: big1(hi+1e-9, 0)}
}

// snapInt writes a polynomial in integer atoms with rational coefficients of
// small denominator as an integer term z with p = z/l (p = z*positive when
// scaled). Coefficients are rationals rounded to Prec bits, so they are matched
// to within 2^-200.
func (c *Ctx) snapInt(p *R, scaled bool) (*I, int64, bool) {
	if len(p.t) > 40 {
		return nil, 0, false
	}
	var lead *big.Float
	for _, t := range p.t {
		if t.m == 0 {
			continue
		}
		for _, f := range c.monos[t.m].f {
			if c.Atoms[f.a].Kind != AInt {
				return nil, 0, false
			}
		}
		if lead == nil {
			lead = t.c
		}
	}
	if lead == nil {
		return nil, 0, false
	}
	div := nf().SetInt64(1)
	if scaled {
		div.Abs(lead)
	}
	eps := nf().SetMantExp(nf().SetInt64(1), -200)
	half := nf().SetFloat64(0.5)
	for l := int64(1); l <= 240; l++ {
		ok := true
		sum := c.IConstV(0)
		for _, t := range p.t {
			v := nf().Quo(t.c, div)
			v.Mul(v, nf().SetInt64(l))
			h := nf().Set(half)
			if v.Sign() < 0 {
				h.Neg(h)
			}
			z, _ := nf().Add(v, h).Int(nil)
			d := nf().Sub(v, nf().SetInt(z))
			d.Abs(d)
			if d.Cmp(eps) > 0 {
				ok = false
				break
			}
			prod := c.IBig(z)
			for _, f := range c.monos[t.m].f {
				for e := int32(0); e < f.e; e++ {
					prod = c.IMulT(prod, c.Atoms[f.a].I)
				}
			}
			sum = c.IAddT(sum, prod)
		}
		if ok {
			return sum, l, true
		}
	}
	return nil, 0, false
}

// IntegerValued reports whether p is an integer combination of integer atoms,
// returning the integer term.
func (c *Ctx) IntegerValued(p *R) (*I, bool) {
	sum := c.IConstV(0)
	for _, t := range p.t {
		z, acc := t.c.Int(nil)
		if acc != big.Exact {
			return nil, false
		}
		prod := c.IBig(z)
		for _, f := range c.monos[t.m].f {
			a := c.Atoms[f.a]
			if a.Kind != AInt {
				return nil, false
			}
			for e := int32(0); e < f.e; e++ {
				prod = c.IMulT(prod, a.I)
			}
		}
		sum = c.IAddT(sum, prod)
	}
	return sum, true
}

// diffRange is an interval of x - y from its linear form.
func (c *Ctx) diffRange(x, y *I) (lo, hi *big.Int) {
	coef, at, k := map[string]*big.Int{}, map[string]*I{}, new(big.Int)
	var walk func(i *I, m *big.Int)
	n := 0
	walk = func(i *I, m *big.Int) {
		n++
		switch {
		case n > 200:
		case i.Op == IConst:
			k.Add(k, new(big.Int).Mul(m, i.Lo))
			return
		case i.Op == IAdd:
			walk(i.A, m)
			walk(i.B, m)
			return
		case i.Op == ISub:
			walk(i.A, m)
			walk(i.B, new(big.Int).Neg(m))
			return
		case i.Op == IMul && i.A.IsConst():
			walk(i.B, new(big.Int).Mul(m, i.A.Lo))
			return
		}
		key := i.Key()
		if v, ok := coef[key]; ok {
			v.Add(v, m)
		} else {
			coef[key], at[key] = new(big.Int).Set(m), i
		}
	}
	walk(x, big.NewInt(1))
	walk(y, big.NewInt(-1))
	lo, hi = new(big.Int).Set(k), new(big.Int).Set(k)
	for key, m := range coef {
		a, b := new(big.Int).Mul(m, at[key].Lo), new(big.Int).Mul(m, at[key].Hi)
		if m.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return lo, hi
}

func (c *Ctx) ILeT(x, y *I) *B {
	if x.Hi.Cmp(y.Lo) <= 0 {
		return True
	}
	if x.Lo.Cmp(y.Hi) > 0 {
		return False
	}
	if x.Op == IFloor && y.IsConst() { // floor(p) <= k  <=>  p < k+1
		return c.Lt(x.P, c.RInt(c.IAddT(y, c.IConstV(1))))
	}
	if y.Op == IFloor && x.IsConst() { // k <= floor(p)  <=>  k <= p
		return c.Le(c.RInt(x), y.P)
	}
	if lo, hi := c.diffRange(x, y); hi.Sign() <= 0 {
		return True
	} else if lo.Sign() > 0 {
		return False
	}
	return &B{Op: ILe, X: x, Y: y}
}

func (c *Ctx) ILtT(x, y *I) *B {
	if x.Hi.Cmp(y.Lo) < 0 {
		return True
	}
	if x.Lo.Cmp(y.Hi) >= 0 {
		return False
	}
	if x.Op == IFloor && y.IsConst() { // floor(p) < k  <=>  p < k
		return c.Lt(x.P, c.RInt(y))
	}
	if y.Op == IFloor && x.IsConst() { // k < floor(p)  <=>  k+1 <= p
		return c.Le(c.RInt(c.IAddT(x, c.IConstV(1))), y.P)
	}
	if lo, hi := c.diffRange(x, y); hi.Sign() < 0 {
		return True
	} else if lo.Sign() >= 0 {
		return False
	}
	return &B{Op: ILt, X: x, Y: y}
}

func (c *Ctx) IEqT(x, y *I) *B {
	if x.IsConst() && y.IsConst() {
		return Bool(x.Lo.Cmp(y.Lo) == 0)
	}
	if x.Key() == y.Key() {
		return True
	}
	if x.Hi.Cmp(y.Lo) < 0 || y.Hi.Cmp(x.Lo) < 0 {
		return False
	}
	if y.Op == IFloor && x.IsConst() {
		x, y = y, x
	}
	if x.Op == IFloor && y.IsConst() {
		return c.And(c.ILeT(y, x), c.ILeT(x, y))
	}
	if lo, hi := c.diffRange(x, y); lo.Sign() > 0 || hi.Sign() < 0 {
		return False
	} else if lo.Sign() == 0 && hi.Sign() == 0 {
		return True
	}
	return &B{Op: IEq, X: x, Y: y}
}

func (c *Ctx) BIte(b, x, y *B) *B {
	return c.Or(c.And(b, x), c.And(c.Not(b), y))
}
