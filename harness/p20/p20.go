// Package p20 checks the phase field crystal terms against their energies.
package p20

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

func grids(more ...[]int) []int {
	list := [][]int{{2, 3}, {4, 1}, {1, 4}, {3, 2, 2}, {1, 1, 3}, {1, 3, 1}}
	if sym.Thorough() {
		list = append(list, []int{3, 3}, []int{4, 4}, []int{2, 5}, []int{2, 3, 2}, []int{3, 3, 2})
	}
	sym.Bound("grids " + fmt.Sprint(list))
	return ref.Grids("grid", list)
}

func freqNorm(d []int, k int) float64 { return math.Sqrt(ref.K2(d, k)) }

// peaks: fixed ones (with crossings between the peaks) or one with arbitrary parameters.
func peaks(kind int) pfc.ReciprocalSpacePairCorrelation {
	p := pfc.ReciprocalSpacePairCorrelation{EffTemp: 0.3, Peaks: []pfc.Peak{
		{PlaneDensity: 1, Location: 2, Width: 0.8, NumPlanes: 4},
		{PlaneDensity: 0.7, Location: 3.2, Width: 0.5, NumPlanes: 2}}}
	switch kind {
	case 1:
		p.Peaks[0], p.Peaks[1] = p.Peaks[1], p.Peaks[0]
		p.Peaks = append(p.Peaks, pfc.Peak{PlaneDensity: 2, Location: 1.1, Width: 0.3, NumPlanes: 3})
	case 2:
		p.EffTemp = sym.Float("temp", 0, 1)
		p.Peaks = []pfc.Peak{{PlaneDensity: sym.Float("density", 0.5, 2), Location: sym.Float("location", 0, 6), Width: sym.Float("width", 0.5, 3), NumPlanes: 1 + sym.Choose("planes", 3)}}
	}
	return p
}

func peak(temp float64, p pfc.Peak, k float64) float64 {
	x := (k - p.Location) / p.Width
	return math.Exp(-0.5*x*x) * math.Exp(-temp*temp*k*k/(2*p.PlaneDensity*float64(p.NumPlanes)))
}

func corr(c pfc.ReciprocalSpacePairCorrelation, k float64) float64 {
	best := 0.0
	for _, p := range c.Peaks {
		if v := peak(c.EffTemp, p, k); v > best {
			best = v
		}
	}
	return best
}

// HPeaks: the correlation function.
func HPeaks() {
	sym.Bound("zero to three peaks (quick: two) with arbitrary parameters: temperature [0,2], density [0.2,3], location [0,8], width [0.2,3], planes 1-3, wave number [0,10]")
	max := 3
	if sym.Thorough() {
		max = 4
	}
	c := pfc.ReciprocalSpacePairCorrelation{EffTemp: sym.Float("temp", 0, 2)}
	n := sym.Choose("peaks", max)
	for q := 0; q < n; q++ {
		c.Peaks = append(c.Peaks, pfc.Peak{PlaneDensity: sym.Float(fmt.Sprintf("density%d", q), 0.2, 3), Location: sym.Float(fmt.Sprintf("location%d", q), 0, 8),
			Width: sym.Float(fmt.Sprintf("width%d", q), 0.2, 3), NumPlanes: 1 + sym.Choose(fmt.Sprintf("planes%d", q), 3)})
	}
	k := sym.Float("k", 0, 10)
	got := c.Eval(k)
	sym.Close("value", got, corr(c, k), 1e-9)
	if n == 0 {
		sym.Close("no peaks", got, 0, 0)
	}
}

// HPair: the pair correlation term.
func HPair() {
	d := grids()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	kind := sym.Choose("peaks", 3)
	if kind == 2 && n > 6 {
		return
	}
	sym.Bound("two and three fixed peaks and one peak with arbitrary parameters, arbitrary prefactor in [-2,2], arbitrary real field in [-2,2], with and without the Laplacian")
	c := peaks(kind)
	pre := sym.Float("pre", -2, 2)
	lap := sym.Choose("laplacian", 2) == 1
	x := ref.Real("x", n, -2, 2)
	base := pf.PairCorrlationTerm{PairCorrFunc: c, Field: "conc", Prefactor: pre, Laplacian: lap}
	ex := pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: base}
	hat := ref.DFT(d, ref.ToC(x), -1)
	bricks := map[string]pf.Brick{"conc": pf.NewField("conc", n, ref.CopyC(hat)), "other": pf.NewField("other", n, nil)}
	impl, expl := ref.Cplx("junk", n, -1, 1), ref.Cplx("junk", n, -1, 1)
	base.Construct(bricks)(ft.Freq, 0, impl)
	ex.Construct(bricks)(ft.Freq, 0, expl)
	kern := make([]float64, n)
	for k := range kern {
		kern[k] = pre * corr(c, freqNorm(d, k))
		fac := 1.0
		if lap {
			fac = -ref.K2(d, k)
		}
		sym.CloseC("implicit", impl[k], complex(-kern[k]*fac, 0), 1e-8)
		sym.CloseC("explicit", expl[k], complex(-kern[k]*fac, 0)*hat[k], 1e-7)
		sym.CloseC("same", expl[k], impl[k]*hat[k], 1e-7)
	}
	ref.CloseAll("brick", bricks["conc"].(pf.Field).Data, hat, 0)

	// the energy and its derivative
	if kind == 2 {
		return
	}
	energy := func(x []float64) float64 {
		return base.GetEnergy(map[string]pf.Brick{"conc": pf.NewField("conc", n, ref.ToC(x)), "other": pf.NewField("other", n, nil)}, ft, d)
	}
	want := 0.0
	for k := range kern {
		want -= 0.5 * kern[k] * (real(hat[k])*real(hat[k]) + imag(hat[k])*imag(hat[k])) / float64(n)
	}
	sym.Close("energy", energy(x), want, 1e-7)
	if lap {
		return
	}
	back := ref.IDFT(d, expl)
	i := sym.Choose("node", n)
	y, z := append([]float64(nil), x...), append([]float64(nil), x...)
	y[i] += 0.5
	z[i] -= 0.5
	sym.CloseC("derivative", back[i], complex(energy(y)-energy(z), 0), 1e-7)
}

// HMixture: linear plus non-linear part of the ideal mixture.
func HMixture() {
	d := grids()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	sym.Bound("mixture constants, prefactor and field in [-2,2], with and without the Laplacian")
	mix := pfc.IdealMix{C3: sym.Float("c3", -2, 2), C4: sym.Float("c4", -2, 2)}
	pre := sym.Float("pre", -2, 2)
	lap := sym.Choose("laplacian", 2) == 1
	x := ref.Real("x", n, -2, 2)
	t := pf.IdealMixtureTerm{IdealMix: mix, Field: "conc", Prefactor: pre, Laplacian: lap}
	m := pf.NewModel()
	if sym.Choose("first", 2) == 1 {
		m.AddField(pf.NewField("other", n, ref.ToC(ref.Real("other", n, -2, 2))))
		m.AddEquation("dother/dt = other")
	}
	m.AddField(pf.NewField("conc", n, ref.ToC(x)))
	eq := len(m.Equations)
	m.RegisterFunction("mixfunc", t.Eval)
	m.RegisterMixedTerm("MIX", &t, []pf.DerivedField{t.DerivedField(n, m.Bricks)})
	m.AddEquation("dconc/dt = MIX")
	m.Init()
	m.SyncDerivedFields()
	der := func(v float64) float64 { return pre * (v - mix.C3*v*v/2 + mix.C4*v*v*v/3) }
	for i := range x {
		sym.CloseC("function", t.Eval(i, m.Bricks), complex(der(x[i]), 0), 1e-8)
		sym.CloseC("registered", m.Bricks["mixfunc"].Get(i), complex(der(x[i]), 0), 1e-8)
	}
	// the energy and its derivative (five points, exact for a polynomial of degree four)
	energy := func(x []float64) float64 {
		return t.GetEnergy(map[string]pf.Brick{"conc": pf.NewField("conc", n, ref.ToC(x)), "other": pf.NewField("other", n, nil)}, n)
	}
	want := 0.0
	for _, v := range x {
		want += pre * (v*v/2 - mix.C3*v*v*v/6 + mix.C4*v*v*v*v/12)
	}
	sym.Close("energy", energy(x), want, 1e-8)
	i := sym.Choose("node", n)
	dv := 0.0
	for q, w := range []float64{1.0 / 12, -2.0 / 3, 0, 2.0 / 3, -1.0 / 12} {
		if w != 0 {
			y := append([]float64(nil), x...)
			y[i] += float64(q-2) * 0.5
			dv += w * energy(y) / 0.5
		}
	}
	sym.Close("derivative", der(x[i]), dv, 1e-7)

	for _, f := range m.Fields {
		ft.FFT(f.Data)
	}
	for _, f := range m.DerivedFields {
		ft.FFT(f.Data)
	}
	hat := ref.DFT(d, ref.ToC(x), -1)
	r, a := m.GetRHS(eq, ft.Freq, 0), m.GetDenum(eq, ft.Freq, 0)
	g := make([]complex128, n)
	for i := range g {
		g[i] = complex(der(x[i]), 0)
	}
	g = ref.DFT(d, g, -1)
	for k := range g {
		fac := complex(1, 0)
		if lap {
			fac = complex(-ref.K2(d, k), 0)
		}
		sym.CloseC("linear", a[k], fac*complex(pre, 0), 1e-8)
		sym.CloseC("sum", r[k]+a[k]*hat[k], fac*g[k], 1e-6)
	}
}

// HMissing: the mixture needs its derived field.
func HMissing() {
	t := pf.IdealMixtureTerm{Field: "conc", Prefactor: 1}
	sym.Assert("refused", sym.Panics(func() {
		t.ConstructNonLinear(map[string]pf.Brick{"conc": pf.NewField("conc", 1, nil)})(func(i int) []float64 { return nil }, 0, make([]complex128, 1))
	}))
}

// HLattice: the peaks of the square lattice.
func HLattice() {
	sym.Bound("square lattice: lattice parameter in [0.5,100], width in [0.01,10]")
	a := sym.Float("a", 0.5, 100)
	w := sym.Float("width", 0.01, 10)
	p := pfc.SquareLattice2D(w, a)
	sym.EqInt("two peaks", len(p), 2)
	for q, r := range []float64{1, math.Sqrt2} {
		// the shortest reciprocal vectors (1 0) and (1 1), four planes each, with the density of atoms on their planes
		sym.Close("location", p[q].Location*a, 2*math.Pi*r, 1e-6)
		sym.Close("width", p[q].Width, w, 0)
		sym.EqInt("planes", p[q].NumPlanes, 4)
		sym.Close("density", p[q].PlaneDensity*r, 1, 1e-9)
	}
}
