package term

import (
	"math"
	"math/big"
)

// Model assigns values to inputs.
type Model struct {
	R map[string]float64
	I map[string]int64
	B map[string]bool
}

func NewModel() *Model {
	return &Model{R: map[string]float64{}, I: map[string]int64{}, B: map[string]bool{}}
}

func (m *Model) Clone() *Model {
	n := NewModel()
	for k, v := range m.R {
		n.R[k] = v
	}
	for k, v := range m.I {
		n.I[k] = v
	}
	for k, v := range m.B {
		n.B[k] = v
	}
	return n
}

func applyFn(name string, x, y float64) float64 {
	switch name {
	case "exp":
		return math.Exp(x)
	case "log":
		return math.Log(x)
	case "sin":
		return math.Sin(x)
	case "cos":
		return math.Cos(x)
	case "tan":
		return math.Tan(x)
	case "tanh":
		return math.Tanh(x)
	case "atan":
		return math.Atan(x)
	case "asin":
		return math.Asin(x)
	case "acos":
		return math.Acos(x)
	case "atan2":
		return math.Atan2(x, y)
	case "pow":
		return math.Pow(x, y)
	case "erf":
		return math.Erf(x)
	case "cbrt":
		return math.Cbrt(x)
	case "sinh":
		return math.Sinh(x)
	case "cosh":
		return math.Cosh(x)
	case "erfc":
		return math.Erfc(x)
	case "log1p":
		return math.Log1p(x)
	}
	return math.NaN()
}

// Eval evaluates terms numerically under a model.
type Eval struct {
	c  *Ctx
	m  *Model
	at map[int]float64
	it map[*I]*big.Int
}

func (c *Ctx) NewEval(m *Model) *Eval {
	return &Eval{c: c, m: m, at: map[int]float64{}, it: map[*I]*big.Int{}}
}

// Clamp brings a default value into bounds.
func defaultIn(lo, hi float64) float64 {
	if lo <= 0 && hi >= 0 {
		return 0
	}
	if math.IsInf(lo, 0) {
		return hi
	}
	return lo
}

func (e *Eval) Atom(a *Atom) float64 {
	if v, ok := e.at[a.ID]; ok {
		return v
	}
	var v float64
	switch a.Kind {
	case AVar:
		x, ok := e.m.R[a.Name]
		if !ok {
			x = defaultIn(a.Lo, a.Hi)
		}
		v = x
	case AInt:
		v, _ = new(big.Float).SetInt(e.Int(a.I)).Float64()
	case AInv:
		v = 1 / e.Real(a.P)
	case ASqrt:
		v = math.Sqrt(e.Real(a.P))
	case AFn:
		y := 0.0
		if a.Q != nil {
			y = e.Real(a.Q)
		}
		v = applyFn(a.Name, e.Real(a.P), y)
	case AIte:
		if e.Bool(a.B) {
			v = e.Real(a.P)
		} else {
			v = e.Real(a.Q)
		}
	case ADef:
		v = e.Real(a.P) * e.Real(a.Q)
	}
	e.at[a.ID] = v
	return v
}

func (e *Eval) Real(p *R) float64 {
	s := 0.0
	for _, t := range p.t {
		k, _ := t.c.Float64()
		for _, f := range e.c.monos[t.m].f {
			v := e.Atom(e.c.Atoms[f.a])
			for i := int32(0); i < f.e; i++ {
				k *= v
			}
		}
		s += k
	}
	return s
}

func (e *Eval) Int(i *I) *big.Int {
	if i.Op == IConst {
		return i.Lo
	}
	if v, ok := e.it[i]; ok {
		return v
	}
	var v *big.Int
	switch i.Op {
	case IVarOp:
		x, ok := e.m.I[i.Name]
		if !ok {
			v = i.Lo
			if i.Lo.Sign() <= 0 && i.Hi.Sign() >= 0 {
				v = big.NewInt(0)
			}
		} else {
			v = big.NewInt(x)
		}
	case IAdd:
		v = new(big.Int).Add(e.Int(i.A), e.Int(i.B))
	case ISub:
		v = new(big.Int).Sub(e.Int(i.A), e.Int(i.B))
	case IMul:
		v = new(big.Int).Mul(e.Int(i.A), e.Int(i.B))
	case IQuo:
		b := e.Int(i.B)
		if b.Sign() == 0 {
			v = big.NewInt(0)
		} else {
			v = new(big.Int).Quo(e.Int(i.A), b)
		}
	case IRem:
		b := e.Int(i.B)
		if b.Sign() == 0 {
			v = big.NewInt(0)
		} else {
			v = new(big.Int).Rem(e.Int(i.A), b)
		}
	case IFDiv:
		v, _ = new(big.Int).DivMod(e.Int(i.A), i.B.Lo, new(big.Int))
	case IWrap:
		lo, _ := TypeRange(i.W, i.S)
		m := new(big.Int).Lsh(big.NewInt(1), uint(i.W))
		v = new(big.Int).Sub(e.Int(i.A), lo)
		v.Mod(v, m)
		v.Add(v, lo)
	case IIte:
		if e.Bool(i.C) {
			v = e.Int(i.A)
		} else {
			v = e.Int(i.B)
		}
	case IFloor:
		f := math.Floor(e.Real(i.P))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 0
		}
		v, _ = big.NewFloat(f).Int(nil)
	}
	e.it[i] = v
	return v
}

// Bool evaluates exactly as float64 comparisons would.
func (e *Eval) Bool(b *B) bool {
	switch b.Op {
	case BConst:
		return b.V
	case BVarOp:
		return e.m.B[b.Name]
	case BNot:
		return !e.Bool(b.A)
	case BAnd:
		return e.Bool(b.A) && e.Bool(b.C)
	case BOr:
		return e.Bool(b.A) || e.Bool(b.C)
	case RLe0:
		return e.Real(b.P) <= 0
	case RLt0:
		return e.Real(b.P) < 0
	case REq0:
		return e.Real(b.P) == 0
	case ILe:
		return e.Int(b.X).Cmp(e.Int(b.Y)) <= 0
	case ILt:
		return e.Int(b.X).Cmp(e.Int(b.Y)) < 0
	case IEq:
		return e.Int(b.X).Cmp(e.Int(b.Y)) == 0
	}
	return false
}

// Margin evaluates b, treating real comparisons closer than eps to their
// boundary as satisfied only when they hold with that margin.
func (e *Eval) Margin(b *B, eps float64) bool {
	switch b.Op {
	case BNot:
		switch b.A.Op {
		case REq0:
			return math.Abs(e.Real(b.A.P)) > eps
		case BAnd:
			return e.Margin(e.c.Not(b.A.A), eps) || e.Margin(e.c.Not(b.A.C), eps)
		case BOr:
			return e.Margin(e.c.Not(b.A.A), eps) && e.Margin(e.c.Not(b.A.C), eps)
		}
		return e.Bool(b)
	case BAnd:
		return e.Margin(b.A, eps) && e.Margin(b.C, eps)
	case BOr:
		return e.Margin(b.A, eps) || e.Margin(b.C, eps)
	case RLe0, RLt0:
		return e.Real(b.P) < -eps
	}
	return e.Bool(b)
}
