// Package p28 checks the pointwise maps.
package p28

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

// HBound: the transform of the real line to an interval.
func HBound() {
	sym.Bound("interval start in [-100,100], width in [0.001,1000], arguments in [-1e4,1e4], fractions in [0.001,0.999]")
	lo, w := sym.Float("min", -100, 100), sym.Float("width", 0.001, 1000)
	bt := pf.BoundTransform{Min: lo, Max: lo + w}
	x := sym.Float("x", -1e4, 1e4)
	y := bt.Forward(x)
	// the fraction of the width
	f := (y - lo) / w
	sym.Assert("inside", y > lo)
	sym.Assert("inside", y < lo+w)
	sym.Close("value", f, math.Atan(x)/math.Pi+0.5, 1e-12)
	d := sym.Float("step", 1, 100)
	z := bt.Forward(x + d)
	sym.Assert("increasing", z > y)
	x2 := sym.Float("moderate x", -100, 100)
	sym.Close("there and back", bt.Backward(bt.Forward(x2)), x2, 1e-4)
	s := sym.Float("fraction", 0.001, 0.999)
	sym.Close("back and there", bt.Forward(bt.Backward(lo+s*w)), lo+s*w, 1e-7)
}

// HBoundMid: the middle of the interval belongs to zero.
func HBoundMid() {
	sym.Bound("interval start in [-100,100], width in [0.001,1000]")
	lo, w := sym.Float("min", -100, 100), sym.Float("width", 0.001, 1000)
	bt := pf.BoundTransform{Min: lo, Max: lo + w}
	sym.Close("middle", bt.Forward(0), lo+w/2, 1e-9)
	sym.Close("middle back", bt.Backward(lo+w/2), 0, 1e-9)
	sym.Close("quarter", bt.Forward(-1), lo+w/4, 1e-9)
	sym.Close("three quarters", bt.Forward(1), lo+0.75*w, 1e-9)
}

type brick struct{ v complex128 }

func (b brick) Get(i int) complex128 { return b.v * complex(float64(i+1), 0) }

// HPenalty: minus the derivative of the penalty drives negative values.
func HPenalty() {
	max := 6
	if sym.Thorough() {
		max = 12
	}
	sym.Bound(fmt.Sprintf("exponents 1 to %d, prefactor in [0,2000], values in [-3,3]", max))
	p := 1 + sym.Choose("exponent", max)
	c := sym.Float("prefactor", 0, 2000)
	n := pf.NegativeValuePenalty{Prefactor: c, Exponent: p, Field: "rho"}
	x := sym.Float("value", 0.001, 3)
	sym.Close("positive", n.Penalty(x), 0, 0)
	// |x|^p - x^p is -2 x^p for odd exponents and zero for even ones
	y := sym.Float("negative", -3, 0)
	d := 1.0
	for i := 1; i < p; i++ {
		d *= y
	}
	want := -2 * c * float64(p) * d
	if p%2 == 0 {
		want = 0
	}
	sym.Close("derivative", n.Penalty(y), want, 1e-3)
	re, im := sym.Float("re", -1, 1), sym.Float("im", -1, 1)
	b := map[string]pf.Brick{"rho": brick{complex(re, im)}, "other": brick{complex(7, 7)}}
	i := sym.Choose("node", 3)
	sym.CloseC("term", n.Evaluate(i, b), complex(n.Penalty(re*float64(i+1)), 0), 1e-6)
}

// HPenaltyDefault: the documented default.
func HPenaltyDefault() {
	sym.Bound("values in [-3,3]")
	n := pf.NewDefaultNegativeValuePenalty("u")
	sym.EqStr("field", n.Field, "u")
	x := sym.Float("value", -3, 3)
	want := 0.0
	if x < 0 {
		want = -2 * 1500 * 3 * x * x
	}
	sym.Close("default", n.Penalty(x), want, 1e-6)
}

// HIndicator: the phase indicators and their derivatives.
func HIndicator() {
	sym.Bound("arguments in [0,1], steps to 1; clamped version to [-5,5]")
	x := sym.Float("x", 0, 1)
	h := sym.Float("h", 0, 1)
	sym.Assume(x+h <= 1)
	for k, f := range []func(float64) float64{pf.Indicator, pfc.Indicator} {
		g := []func(float64) float64{pf.IndicatorDeriv, pfc.IndicatorDeriv}[k]
		n := []string{"pf ", "pfc "}[k]
		sym.Close(n+"start", f(0), 0, 0)
		sym.Close(n+"end", f(1), 1, 1e-15)
		sym.Close(n+"flat start", g(0), 0, 0)
		sym.Close(n+"flat end", g(1), 0, 1e-15)
		// a cubic is determined by its ends and slopes
		sym.Close(n+"value", f(x), x*x*(3-2*x), 1e-9)
		sym.Close(n+"derivative", g(x), 6*x*(1-x), 1e-9)
		// Simpson's rule is exact for the derivative
		sym.Close(n+"integral", f(x+h)-f(x), h/6*(g(x)+4*g(x+h/2)+g(x+h)), 1e-9)
		sym.Assert(n+"range", f(x) >= 0 && f(x) <= 1)
	}
	out := sym.Float("outside", -5, 5)
	v, d := pfc.Indicator(out), pfc.IndicatorDeriv(out)
	if out < 0 {
		sym.Close("below", v, 0, 0)
		sym.Close("below slope", d, 0, 0)
	} else if out > 1 {
		sym.Close("above", v, 1, 0)
		sym.Close("above slope", d, 0, 0)
	} else {
		sym.Close("between", v, out*out*(3-2*out), 1e-9)
	}
}

// vandeven is the filter of the given order at x: one minus the regularised incomplete beta function.
func vandeven(p int, x float64) float64 {
	// 1 - I_x(p,p) = sum_{j<p} binom(2p-1,j) x^j (1-x)^(2p-1-j)
	s, b := 0.0, 1.0
	n := 2*p - 1
	for j := 0; j < p; j++ {
		s += b * math.Pow(x, float64(j)) * math.Pow(1-x, float64(n-j))
		b *= float64(n-j) / float64(j+1)
	}
	return s
}

// HVandeven: every order and every piece of the table.
func HVandeven() {
	orders := []int{1, 2, 3, 8}
	if sym.Thorough() {
		orders = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 20}
	}
	sym.Bound(fmt.Sprint("filter orders ", orders, ", all pieces of the table, any position inside a piece"))
	p := orders[sym.Choose("order", len(orders))]
	v := pf.NewVandeven(p)
	n := len(v.Data)
	s := sym.Float("inside", 0.001, 0.999)
	sym.Close("start", v.Eval(0), 1, 1e-12)
	sym.Close("end", v.Eval(1), 0, 1e-4)
	for i := 0; i+1 < n; i++ {
		a, b := v.Eval(float64(i)/float64(n-1)+1e-9), v.Eval(float64(i+1)/float64(n-1)-1e-9)
		sym.Assert("not increasing", b <= a+1e-12)
		sym.Close("curve", a, vandeven(p, float64(i)/float64(n-1)), 1e-4)
		sym.Close("linear", v.Eval((float64(i)+s)/float64(n-1)), v.Data[i]+s*(v.Data[i+1]-v.Data[i]), 1e-9)
		sym.Close("table", v.Data[i], a, 1e-6)
	}
}

// HViscosity: no damping for slow modes, the full power law for fast ones.
func HViscosity() {
	max := 4
	if sym.Thorough() {
		max = 8
	}
	sym.Bound(fmt.Sprintf("one to three frequencies in [-0.5,0.5], threshold in [0.01,0.5], strength in [0,10], powers 1 to %d", max))
	d := 1 + sym.Choose("dimensions", 3)
	e, m := sym.Float("strength", 0, 10), sym.Float("threshold", 0.01, 0.5)
	pw := 1 + sym.Choose("power", max)
	f := ref.Real("f", d, -0.5, 0.5)
	k2 := 0.0
	for _, x := range f {
		k2 += x * x
	}
	sv := pf.SpectralViscosity{Eps: e, DissipationThreshold: m, Power: pw}
	field := []complex128{complex(3, 4)}
	nan := sym.Float("old", -9, 9)
	field[0] = complex(nan, nan)
	sv.Construct(nil)(func(i int) []float64 { return f }, sym.Float("time", 0, 5), field)
	k := math.Sqrt(k2)
	law := -e
	for i := 0; i < pw; i++ {
		law *= k
	}
	got := field[0]
	sym.Close("real", imag(got), 0, 0)
	switch {
	case k < 0.33*m:
		sym.Close("slow", real(got), 0, 1e-12)
	case k > 1.001*m:
		sym.Close("fast", real(got), law, 1e-7)
	case k > 0.34*m && k < 0.999*m:
		// the documented cubic of x = 3k/2m - 1/2
		x := 1.5*k/m - 0.5
		sym.Close("between", real(got), law*(2*x*x-3*x*x*x), 1e-6)
	}
}

// HTwoPhase: the correlation functions are mixed by the local indicator.
func HTwoPhase() {
	list := [][]int{{2, 2}, {2, 3}, {3, 1}, {1, 4}, {2, 2, 2}, {1, 1, 3}, {1, 3, 1}}
	if sym.Thorough() {
		list = append(list, []int{4, 4}, []int{3, 5}, []int{3, 2, 2})
	}
	d := ref.Grids("grid", list)
	n := ref.Num(d)
	sym.Bound("two nodes with values in [-0.5,1.5], the others in [0.1,0.9]; two fixed peaks per phase")
	c := ref.Real("c", n, 0.1, 0.9)
	c[0], c[n-2] = sym.Float("free0", -0.5, 1.5), sym.Float("free1", -0.5, 1.5)
	two := pfc.TwoPhaseCorrFunc{CorrFunc: []pfc.ReciprocalSpacePairCorrelation{
		{EffTemp: 0.3, Peaks: pfc.SquareLattice2D(1.5, 3.0)},
		{EffTemp: 0.1, Peaks: pfc.TriangularLattice2D(2.5, 4.0)},
	}}
	ft := pfutil.NewFFTW(d)
	hat := ref.DFT(d, ref.ToC(c), -1)
	// both calls transform their argument in place
	got := two.Evaluate(ref.CopyC(hat), ft)
	var k [2][]complex128
	for p := range k {
		k[p] = make([]complex128, n)
		for i := range k[p] {
			f := ref.F(d, i)
			r := 0.0
			for _, x := range f {
				r += x * x
			}
			k[p][i] = complex(two.CorrFunc[p].Eval(2*math.Pi*math.Sqrt(r)), 0)
		}
		k[p] = ref.IDFT(d, k[p])
	}
	want := make([]complex128, n)
	for i := range want {
		h := c[i] * c[i] * (3 - 2*c[i])
		if c[i] < 0 {
			h = 0
		} else if c[i] > 1 {
			h = 1
		}
		want[i] = complex(h, 0)*k[0][i] + complex(1-h, 0)*k[1][i]
	}
	ref.CloseAll("mixture", got, want, 1e-9)
	ref.CloseAll("transformed", two.EvaluateFT(ref.CopyC(hat), ft), ref.DFT(d, want, -1), 1e-8)
	one := pfc.TwoPhaseCorrFunc{CorrFunc: two.CorrFunc[:1]}
	sym.Assert("one function", sym.Panics(func() { one.Evaluate(hat, ft) }))
}
