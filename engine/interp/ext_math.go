package interp

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"sync"

	"verif/engine/term"
)

func allConc(a []value) bool {
	for _, x := range a {
		if isSym(x) {
			return false
		}
	}
	return true
}

func math1(name string, nat func(float64) float64, sym func(i *interpreter, x *term.R) value) {
	f := func(fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			return nat(x)
		}
		x, _ := fr.i.toR(a[0])
		if sym == nil {
			return fr.i.rval(fr.i.p.C.Fn(lower(name), x, nil))
		}
		return sym(fr.i, x)
	}
	reg("math."+name, f)
}

func lower(s string) string { return string(s[0]|0x20) + s[1:] }

func math2(name string, nat func(x, y float64) float64, sym func(i *interpreter, x, y *term.R) value) {
	reg("math."+name, func(fr *frame, a []value) value {
		if allConc(a) {
			return nat(a[0].(float64), a[1].(float64))
		}
		x, ok1 := fr.i.toR(a[0])
		y, ok2 := fr.i.toR(a[1])
		if !ok1 || !ok2 {
			if v, ok := withNonFinite(name, a[0], a[1]); ok {
				return v
			}
			panic(unsupported("math." + name + " of a non-finite and a symbolic value"))
		}
		return sym(fr.i, x, y)
	})
}

// withNonFinite is the value of a function of which one argument is an infinity or no number.
func withNonFinite(name string, x, y value) (value, bool) {
	f, ok := x.(float64)
	other := y
	if !ok {
		f, ok = y.(float64)
		other = x
		if !ok {
			return nil, false
		}
	}
	switch {
	case name != "Max" && name != "Min" && name != "Hypot":
		return nil, false
	case math.IsNaN(f):
		return f, true
	case name == "Hypot":
		return math.Inf(1), true
	case math.IsInf(f, 1) == (name == "Max"):
		return f, true
	}
	return other, true
}

func init() {
	math1("Sqrt", math.Sqrt, func(i *interpreter, x *term.R) value { return i.sqrtV(x) })
	math1("sqrt", math.Sqrt, func(i *interpreter, x *term.R) value { return i.sqrtV(x) })
	for n, f := range map[string]func(float64) float64{"Exp": math.Exp, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Tanh": math.Tanh,
		"Atan": math.Atan, "Asin": math.Asin, "Acos": math.Acos, "Erf": math.Erf, "Erfc": math.Erfc} {
		math1(n, f, nil)
	}
	logV := func(i *interpreter, x *term.R, scale float64) value {
		c := i.p.C
		if i.p.Decide(c.Lt(x, c.RConst(0))) {
			return math.NaN()
		}
		if i.p.Decide(c.Eq(x, c.RConst(0))) {
			return math.Inf(-1)
		}
		l := c.Fn("log", x, nil)
		if scale != 1 {
			l = c.Mul(l, c.RConst(scale))
		}
		return i.rval(l)
	}
	exp := func(i *interpreter, x *term.R) *term.R { return i.p.C.Fn("exp", x, nil) }
	math1("Log", math.Log, func(i *interpreter, x *term.R) value { return logV(i, x, 1) })
	math1("Log2", math.Log2, func(i *interpreter, x *term.R) value { return logV(i, x, 1/math.Ln2) })
	math1("Log10", math.Log10, func(i *interpreter, x *term.R) value { return logV(i, x, 1/math.Ln10) })
	math1("Log1p", math.Log1p, func(i *interpreter, x *term.R) value { return logV(i, i.p.C.Add(x, i.p.C.RConst(1)), 1) })
	math1("Expm1", math.Expm1, func(i *interpreter, x *term.R) value {
		return i.rval(i.p.C.Sub(exp(i, x), i.p.C.RConst(1)))
	})
	math1("Exp2", math.Exp2, func(i *interpreter, x *term.R) value {
		return i.rval(exp(i, i.p.C.Mul(x, i.p.C.RConst(math.Ln2))))
	})
	math1("Sinh", math.Sinh, func(i *interpreter, x *term.R) value {
		c := i.p.C
		return i.rval(c.Mul(c.RConst(0.5), c.Sub(exp(i, x), exp(i, c.Neg(x)))))
	})
	math1("Cosh", math.Cosh, func(i *interpreter, x *term.R) value {
		c := i.p.C
		return i.rval(c.Mul(c.RConst(0.5), c.Add(exp(i, x), exp(i, c.Neg(x)))))
	})
	math1("Cbrt", math.Cbrt, func(i *interpreter, x *term.R) value {
		c := i.p.C
		if i.p.Decide(c.Eq(x, c.RConst(0))) {
			return 0.0
		}
		third := func(y *term.R) *term.R { return exp(i, c.Mul(c.Fn("log", y, nil), c.RConst(1.0/3.0))) }
		if i.p.Decide(c.Lt(x, c.RConst(0))) {
			return i.rval(c.Neg(third(c.Neg(x))))
		}
		return i.rval(third(x))
	})
	math1("RoundToEven", math.RoundToEven, func(i *interpreter, x *term.R) value {
		c := i.p.C
		h := c.RConst(0.5)
		up := c.RInt(c.Floor(c.Add(x, h)))
		if i.p.Decide(c.Eq(c.Sub(up, x), h)) { // a tie
			half := c.RInt(c.Floor(c.Mul(up, h)))
			if !i.p.Decide(c.Eq(c.Mul(half, c.RConst(2)), up)) {
				up = c.Sub(up, c.RConst(1))
			}
		}
		return i.rval(up)
	})
	reg("math.FMA", func(fr *frame, a []value) value {
		if allConc(a) {
			return math.FMA(a[0].(float64), a[1].(float64), a[2].(float64))
		}
		c := fr.i.p.C
		x, ok1 := fr.i.toR(a[0])
		y, ok2 := fr.i.toR(a[1])
		z, ok3 := fr.i.toR(a[2])
		if !ok1 || !ok2 || !ok3 {
			panic(unsupported("math.FMA of a non-finite and a symbolic value"))
		}
		return fr.i.rval(c.Add(c.Mul(x, y), z))
	})
	math2("Dim", math.Dim, func(i *interpreter, x, y *term.R) value {
		c := i.p.C
		return i.rval(c.RIte(c.Lt(y, x), c.Sub(x, y), c.RConst(0)))
	})
	math1("Gamma", math.Gamma, func(i *interpreter, x *term.R) value { panic(unsupported("Gamma of a symbolic value")) })
	math1("Abs", math.Abs, func(i *interpreter, x *term.R) value { return i.absV(x) })
	fl := func(i *interpreter, x *term.R) value { return i.rval(i.p.C.RInt(i.p.C.Floor(x))) }
	math1("Floor", math.Floor, fl)
	math1("floor", math.Floor, fl)
	math1("Ceil", math.Ceil, func(i *interpreter, x *term.R) value {
		c := i.p.C
		return i.rval(c.Neg(c.RInt(c.Floor(c.Neg(x)))))
	})
	math1("Trunc", math.Trunc, func(i *interpreter, x *term.R) value { return i.rval(i.p.C.RInt(i.truncR(x))) })
	math1("Round", math.Round, func(i *interpreter, x *term.R) value {
		c := i.p.C
		h := c.RConst(0.5)
		if i.p.Decide(c.Lt(x, c.RConst(0))) {
			return i.rval(c.Neg(c.RInt(c.Floor(c.Add(c.Neg(x), h)))))
		}
		return i.rval(c.RInt(c.Floor(c.Add(x, h))))
	})
	math2("Pow", math.Pow, func(i *interpreter, x, y *term.R) value { return i.powV(x, y) })
	math2("Max", math.Max, func(i *interpreter, x, y *term.R) value {
		return i.rval(i.p.C.RIte(i.p.C.Lt(x, y), y, x))
	})
	math2("Min", math.Min, func(i *interpreter, x, y *term.R) value {
		return i.rval(i.p.C.RIte(i.p.C.Lt(y, x), y, x))
	})
	math2("Hypot", math.Hypot, func(i *interpreter, x, y *term.R) value {
		c := i.p.C
		return i.rval(c.Sqrt(c.Add(c.Mul(x, x), c.Mul(y, y))))
	})
	math2("Atan2", math.Atan2, func(i *interpreter, x, y *term.R) value { return i.rval(i.p.C.Fn("atan2", x, y)) })
	math2("Mod", math.Mod, func(i *interpreter, x, y *term.R) value {
		c := i.p.C
		if !y.IsConst() || y.ConstVal() == 0 {
			panic(unsupported("math.Mod with a symbolic divisor"))
		}
		q := i.truncR(c.Mul(x, c.Inv(y)))
		return i.rval(c.Sub(x, c.Mul(y, c.RInt(q))))
	})
	math2("Copysign", math.Copysign, func(i *interpreter, x, y *term.R) value {
		c := i.p.C
		m := i.absV(x)
		if i.p.Decide(c.Lt(y, c.RConst(0))) {
			r, _ := i.toR(m)
			return i.rval(c.Neg(r))
		}
		return m
	})
	reg("math.IsNaN", func(fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			return math.IsNaN(x)
		}
		return false
	})
	reg("math.IsInf", func(fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			return math.IsInf(x, int(asInt64(a[1])))
		}
		return false
	})
	reg("math.Signbit", func(fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			return math.Signbit(x)
		}
		return bval(fr.i.p.C.Lt(a[0].(*term.R), fr.i.p.C.RConst(0)))
	})
	reg("math.NaN", func(fr *frame, a []value) value { return math.NaN() })
	reg("math.Inf", func(fr *frame, a []value) value { return math.Inf(int(asInt64(a[0]))) })
	reg("math.Float64bits", func(fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			return math.Float64bits(x)
		}
		return &fbits{a[0]}
	})
	reg("math.Float64frombits", func(fr *frame, a []value) value {
		switch x := a[0].(type) {
		case uint64:
			return math.Float64frombits(x)
		case *fbits:
			return x.v
		}
		panic(unsupported("Float64frombits of a symbolic word"))
	})
	reg("math.Float32bits", func(fr *frame, a []value) value { return math.Float32bits(a[0].(float32)) })
	reg("math.Modf", func(fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			p, q := math.Modf(x)
			return tuple{p, q}
		}
		c := fr.i.p.C
		x := a[0].(*term.R)
		ip := c.RInt(fr.i.truncR(x))
		return tuple{fr.i.rval(ip), fr.i.rval(c.Sub(x, ip))}
	})
	reg("math.Sincos", func(fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			s, c := math.Sincos(x)
			return tuple{s, c}
		}
		x := a[0].(*term.R)
		return tuple{fr.i.rval(fr.i.p.C.Fn("sin", x, nil)), fr.i.rval(fr.i.p.C.Fn("cos", x, nil))}
	})
	reg("math.Ldexp", func(fr *frame, a []value) value { return math.Ldexp(a[0].(float64), int(asInt64(a[1]))) })
	reg("math.Frexp", func(fr *frame, a []value) value {
		f, e := math.Frexp(a[0].(float64))
		return tuple{f, e}
	})
	reg("math.FMA", func(fr *frame, a []value) value {
		if allConc(a) {
			return math.FMA(a[0].(float64), a[1].(float64), a[2].(float64))
		}
		m := fr.i.binopFloat(tokMUL, a[0], a[1])
		return fr.i.binop(tokADD, typF64, m, a[2])
	})

	reg("math/cmplx.Abs", func(fr *frame, a []value) value {
		if x, ok := a[0].(complex128); ok {
			return cmplx.Abs(x)
		}
		z := a[0].(*symC)
		c := fr.i.p.C
		if z.im.IsConst() && z.im.ConstVal() == 0 {
			return fr.i.absV(z.re)
		}
		return fr.i.rval(c.Sqrt(c.Add(c.Mul(z.re, z.re), c.Mul(z.im, z.im))))
	})
	reg("math/cmplx.Conj", func(fr *frame, a []value) value {
		if x, ok := a[0].(complex128); ok {
			return cmplx.Conj(x)
		}
		z := a[0].(*symC)
		return fr.i.cval(z.re, fr.i.p.C.Neg(z.im))
	})
	reg("math/cmplx.Exp", func(fr *frame, a []value) value {
		if x, ok := a[0].(complex128); ok {
			return cmplx.Exp(x)
		}
		z := a[0].(*symC)
		c := fr.i.p.C
		e := c.Fn("exp", z.re, nil)
		return fr.i.cval(c.Mul(e, c.Fn("cos", z.im, nil)), c.Mul(e, c.Fn("sin", z.im, nil)))
	})
	reg("math/cmplx.Pow", func(fr *frame, a []value) value {
		i := fr.i
		if allConc(a) {
			return cmplx.Pow(a[0].(complex128), a[1].(complex128))
		}
		w, ok := a[1].(complex128)
		if !ok || imag(w) != 0 || real(w) != math.Trunc(real(w)) || math.Abs(real(w)) > 16 {
			panic(unsupported("cmplx.Pow with a symbolic or non-integer exponent"))
		}
		n := int(real(w))
		z, zok := i.toC(a[0])
		if !zok {
			return i.nonFiniteC()
		}
		r := &symC{i.p.C.RConst(1), i.p.C.RConst(0)}
		m := n
		if m < 0 {
			m = -m
		}
		for k := 0; k < m; k++ {
			r = i.cmul2(r, z)
		}
		if n < 0 {
			return i.binopComplex(tokQUO, complex(1, 0), r)
		}
		return i.cval(r.re, r.im)
	})
	reg("math/cmplx.Sqrt", func(fr *frame, a []value) value {
		if x, ok := a[0].(complex128); ok {
			return cmplx.Sqrt(x)
		}
		panic(unsupported("cmplx.Sqrt of a symbolic value"))
	})
	reg("math/cmplx.Phase", func(fr *frame, a []value) value {
		if x, ok := a[0].(complex128); ok {
			return cmplx.Phase(x)
		}
		z := a[0].(*symC)
		return fr.i.rval(fr.i.p.C.Fn("atan2", z.im, z.re))
	})
	reg("math/cmplx.IsNaN", func(fr *frame, a []value) value {
		if x, ok := a[0].(complex128); ok {
			return cmplx.IsNaN(x)
		}
		return false
	})
	reg("math/cmplx.IsInf", func(fr *frame, a []value) value {
		if x, ok := a[0].(complex128); ok {
			return cmplx.IsInf(x)
		}
		return false
	})
	reg("math/cmplx.Rect", func(fr *frame, a []value) value {
		if allConc(a) {
			return cmplx.Rect(a[0].(float64), a[1].(float64))
		}
		r, _ := fr.i.toR(a[0])
		t, _ := fr.i.toR(a[1])
		c := fr.i.p.C
		return fr.i.cval(c.Mul(r, c.Fn("cos", t, nil)), c.Mul(r, c.Fn("sin", t, nil)))
	})
}

// fbits is the bit pattern of a symbolic float.
type fbits struct{ v value }

func (i *interpreter) sqrtV(x *term.R) value {
	c := i.p.C
	lo, _ := c.Range(x)
	if lo < 0 && i.p.Decide(c.Lt(x, c.RConst(0))) {
		return math.NaN()
	}
	return i.rval(c.Sqrt(x))
}

func (i *interpreter) absV(x *term.R) value {
	c := i.p.C
	return i.rval(c.RIte(c.Lt(x, c.RConst(0)), c.Neg(x), x))
}

func (i *interpreter) powV(x, y *term.R) value {
	c := i.p.C
	if y.IsConst() {
		n := y.ConstVal()
		if n == math.Trunc(n) && math.Abs(n) <= 16 {
			if n >= 0 {
				return i.rval(c.PowInt(x, int(n)))
			}
			if i.p.Decide(c.Eq(x, c.RConst(0))) {
				return math.Inf(1)
			}
			return i.rval(c.PowInt(c.Inv(x), int(-n)))
		}
		if 2*n == math.Trunc(2*n) && math.Abs(n) <= 8 {
			s := i.sqrtV(x)
			sr, ok := i.toR(s)
			if !ok {
				return s
			}
			k := int(math.Abs(2 * n))
			r := c.PowInt(sr, k)
			if n < 0 {
				if i.p.Decide(c.Eq(x, c.RConst(0))) {
					return math.Inf(1)
				}
				return i.rval(c.Inv(r))
			}
			return i.rval(r)
		}
		lo, _ := c.Range(x)
		if lo < 0 && i.p.Decide(c.Lt(x, c.RConst(0))) {
			return math.NaN()
		}
	}
	if x.IsConst() && x.ConstVal() > 0 {
		return i.rval(c.Fn("exp", c.Mul(y, c.RConst(math.Log(x.ConstVal()))), nil))
	}
	return i.rval(c.Fn("pow", x, y))
}

// --- discrete Fourier transform model -------------------------------------

var twMu sync.Mutex
var twTab = map[[2]int][2]*big.Float{}

const twPrec = 420

func bf(v float64) *big.Float { return new(big.Float).SetPrec(twPrec).SetFloat64(v) }

func bigPi() *big.Float {
	// Machin: pi = 16 atan(1/5) - 4 atan(1/239)
	atanInv := func(n int64) *big.Float {
		x := new(big.Float).SetPrec(twPrec).Quo(bf(1), new(big.Float).SetPrec(twPrec).SetInt64(n))
		x2 := new(big.Float).SetPrec(twPrec).Mul(x, x)
		s := bf(0)
		t := new(big.Float).SetPrec(twPrec).Set(x)
		for k := int64(0); k < 320; k++ {
			u := new(big.Float).SetPrec(twPrec).Quo(t, new(big.Float).SetPrec(twPrec).SetInt64(2*k+1))
			if k%2 == 0 {
				s.Add(s, u)
			} else {
				s.Sub(s, u)
			}
			t.Mul(t, x2)
		}
		return s
	}
	a := atanInv(5)
	a.Mul(a, bf(16))
	b := atanInv(239)
	b.Mul(b, bf(4))
	return a.Sub(a, b)
}

// twiddle returns cos and sin of 2*pi*k/n to well beyond float64 precision.
func twiddle(k, n int) (*big.Float, *big.Float) {
	k = ((k % n) + n) % n
	twMu.Lock()
	defer twMu.Unlock()
	if v, ok := twTab[[2]int{k, n}]; ok {
		return v[0], v[1]
	}
	var c, s *big.Float
	switch {
	case k == 0:
		c, s = bf(1), bf(0)
	case 2*k == n:
		c, s = bf(-1), bf(0)
	case 4*k == n:
		c, s = bf(0), bf(1)
	case 4*k == 3*n:
		c, s = bf(0), bf(-1)
	default:
		x := bigPi()
		x.Mul(x, bf(float64(2*k)))
		x.Quo(x, bf(float64(n)))
		x2 := new(big.Float).SetPrec(twPrec).Mul(x, x)
		c, s = bf(1), new(big.Float).SetPrec(twPrec).Set(x)
		ct, st := bf(1), new(big.Float).SetPrec(twPrec).Set(x)
		for j := 1; j < 120; j++ {
			ct.Mul(ct, x2)
			ct.Quo(ct, bf(float64((2*j-1)*(2*j))))
			st.Mul(st, x2)
			st.Quo(st, bf(float64((2*j)*(2*j+1))))
			if j%2 == 1 {
				c.Sub(c, ct)
				s.Sub(s, st)
			} else {
				c.Add(c, ct)
				s.Add(s, st)
			}
		}
	}
	twTab[[2]int{k, n}] = [2]*big.Float{c, s}
	return c, s
}

// dft transforms row-major data of the given dimensions; sign -1 is forward.
func (i *interpreter) dft(data []value, dims []int, sign int) []value {
	n := 1
	for _, d := range dims {
		n *= d
	}
	if n != len(data) {
		panic(unsupported(fmt.Sprintf("DFT of %d points with dimensions %v", len(data), dims)))
	}
	cur := make([]*symC, n)
	conc := true
	for k, v := range data {
		z, ok := i.toC(v)
		if !ok {
			// a NaN/Inf poisons everything
			out := make([]value, n)
			for j := range out {
				out[j] = i.nonFiniteC()
			}
			return out
		}
		if isSym(v) {
			conc = false
		}
		cur[k] = z
	}
	_ = conc
	c := i.p.C
	stride := 1
	for ax := len(dims) - 1; ax >= 0; ax-- {
		d := dims[ax]
		if d > 1 {
			nxt := make([]*symC, n)
			for base := 0; base < n; base++ {
				if (base/stride)%d != 0 {
					continue
				}
				for q := 0; q < d; q++ {
					var rp, ip []*term.R
					var rk, ik []*big.Float
					for x := 0; x < d; x++ {
						cs, sn := twiddle(q*x*sign, d)
						z := cur[base+x*stride]
						nsn := new(big.Float).Neg(sn)
						rp = append(rp, z.re, z.im)
						rk = append(rk, cs, nsn)
						ip = append(ip, z.im, z.re)
						ik = append(ik, cs, sn)
					}
					nxt[base+q*stride] = &symC{c.LinComb(rp, rk), c.LinComb(ip, ik)}
				}
			}
			cur = nxt
		}
		stride *= d
	}
	out := make([]value, n)
	for k := range out {
		out[k] = i.cval(cur[k].re, cur[k].im)
	}
	return out
}

type fftPlan struct {
	n       []int
	in, out []value
	sign    int
}

func init() {
	const pk = "github.com/barnex/fftw"
	reg(pk+".PlanZ2Z", func(fr *frame, a []value) value {
		var n []int
		for _, d := range a[0].([]value) {
			n = append(n, int(fr.i.concInt(d)))
		}
		pl := &fftPlan{n: n, in: a[1].([]value), out: a[2].([]value), sign: int(asInt64(a[3]))}
		// planning with MEASURE overwrites the arrays
		for k := range pl.in {
			pl.in[k] = complex(0, 0)
		}
		return iface{t: fr.i.prog.ptrTo(pk, "doubleHandle"), v: pl}
	})
	exec := func(fr *frame, a []value) value {
		pl, ok := a[0].(*fftPlan)
		if !ok {
			panic(unsupported("fftw plan"))
		}
		copy(pl.out, fr.i.dft(pl.in, pl.n, pl.sign))
		return nil
	}
	for _, t := range []string{"doubleHandle", "floatHandle"} {
		reg("(*"+pk+"."+t+").Execute", exec)
		reg("(*"+pk+"."+t+").Destroy", func(fr *frame, a []value) value { return nil })
	}
}
