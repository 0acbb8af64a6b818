// Package p18 checks the elastic driving force against the derivative of the elastic energy.
package p18

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/mdl"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
	"gonum.org/v1/gonum/mat"
)

// iso is an isotropic stiffness.
func iso(lam, mu float64) elasticity.Rank4 {
	c := elasticity.NewRank4()
	d := func(i, j int) float64 {
		if i == j {
			return 1
		}
		return 0
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					c.Set(i, j, k, l, lam*d(i, j)*d(k, l)+mu*(d(i, k)*d(j, l)+d(i, l)*d(j, k)))
				}
			}
		}
	}
	return c
}

func hfun(x float64) float64  { return x * x * (3 - 2*x) }
func dhfun(x float64) float64 { return 6 * x * (1 - x) }

// freq is the wave number without the unpaired frequencies.
func freq(d []int, k int) []float64 {
	f := make([]float64, 3)
	copy(f, ref.F(d, k))
	for a := range d {
		if ref.Nyq(d, k, a) {
			f[a] = 0
		}
	}
	return f
}

// stress is lam*tr(e) + 2*mu*e.
func stress(lam, mu float64, e [3][3]float64) (s [3][3]float64) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			s[i][j] = 2 * mu * e[i][j]
		}
		s[i][i] += lam * (e[0][0] + e[1][1] + e[2][2])
	}
	return s
}

// symbol is twice the relaxed energy density per squared indicator amplitude.
func symbol(lam, mu float64, e [3][3]float64, f []float64) float64 {
	s := stress(lam, mu, e)
	tot := 0.0
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			tot += s[i][j] * e[i][j]
		}
	}
	f2 := f[0]*f[0] + f[1]*f[1] + f[2]*f[2]
	if f2 == 0 {
		return tot
	}
	var v [3]float64
	dot := 0.0
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			v[i] += s[i][j] * f[j]
		}
		dot += v[i] * f[i]
	}
	rel := -(lam + mu) * dot * dot / (f2 * (lam + 2*mu))
	for i := 0; i < 3; i++ {
		rel += v[i] * v[i]
	}
	return tot - rel/(mu*f2)
}

// force is minus the derivative of the energy sum_k symbol_k |H_k|^2 / (2N).
func force(d []int, lam, mu float64, e [3][3]float64, x []float64) []float64 {
	n := ref.Num(d)
	h := make([]complex128, n)
	for i := range h {
		h[i] = complex(hfun(x[i]), 0)
	}
	hk := ref.DFT(d, h, -1)
	for k := range hk {
		hk[k] *= complex(symbol(lam, mu, e, freq(d, k)), 0)
	}
	g := ref.IDFT(d, hk)
	out := make([]float64, n)
	for i := range out {
		out[i] = -dhfun(x[i]) * real(g[i])
	}
	return out
}

func material() (lam, mu float64) {
	return sym.Float("lambda", 0, 5), sym.Float("mu", 0.5, 5)
}

// misfit is an arbitrary symmetric misfit; without shear out of the plane in two dimensions.
func misfit(dim int) ([3][3]float64, *mat.Dense) {
	var e [3][3]float64
	m := mat.NewDense(3, 3, nil)
	for i := 0; i < 3; i++ {
		for j := i; j < 3; j++ {
			if dim == 2 && j == 2 && i != 2 {
				continue
			}
			e[i][j] = sym.Float(fmt.Sprintf("e%d%d", i, j), -0.3, 0.3)
			e[j][i] = e[i][j]
			m.Set(i, j, e[i][j])
			m.Set(j, i, e[i][j])
		}
	}
	return e, m
}

func eval(h *pf.HomogeneousModulusLinElast, n int, ft *pfutil.FFTWWrapper) []complex128 {
	out := ref.Cplx("junk", n, -1, 1)
	h.Construct(nil)(ft.Freq, 0, out)
	return out
}

// HForce: any isotropic body and misfit, any field.
func HForce() {
	list := [][]int{{1, 2}, {1, 3}, {2, 2}, {3, 1}, {1, 1, 3}, {1, 3, 1}, {2, 1, 2}}
	if sym.Thorough() {
		list = append(list, []int{1, 4}, []int{2, 3}, []int{3, 2}, []int{1, 3, 1}, []int{3, 1, 2})
	}
	sym.Bound(fmt.Sprint("grids ", list, "; lambda in [0,5], mu in [0.5,5], every misfit component in [-0.3,0.3] (no shear out of the plane in two dimensions), field values in [-1,2]"))
	d := ref.Grids("grid", list)
	n := ref.Num(d)
	lam, mu := material()
	e, m := misfit(len(d))
	h := pf.NewHomogeneousModolus("conc", d, iso(lam, mu), m)
	x := ref.Real("x", n, -1, 2)
	copy(h.Field, x)
	got := ref.IDFT(d, eval(h, n, pfutil.NewFFTW(d)))
	want := force(d, lam, mu, e, x)
	for i := range want {
		sym.CloseC("force", got[i], complex(want[i], 0), 1e-6)
		sym.Close("field", h.Field[i], x[i], 0)
	}
}

// HGrids: larger grids with fixed materials and misfits.
func HGrids() {
	list := [][]int{{3, 3}, {4, 3}, {2, 4}, {2, 2, 3}, {3, 3, 2}}
	if sym.Thorough() {
		list = append(list, []int{4, 4}, []int{5, 3}, []int{2, 6}, []int{3, 3, 3}, []int{4, 2, 3})
	}
	sym.Bound(fmt.Sprint("grids ", list, "; two isotropic bodies and three misfits, field values in [-1,2]"))
	d := ref.Grids("grid", list)
	n := ref.Num(d)
	lam, mu := 1.0, 2.0
	if sym.Choose("material", 2) == 1 {
		lam, mu = 3.5, 0.75
	}
	e := [][3][3]float64{
		{{0.1}, {0, -0.2}, {0, 0, 0.05}},
		{{0.1, 0.07, 0}, {0.07, -0.03, 0}, {0, 0, 0.02}},
		{{0.02, 0.05, -0.04}, {0.05, 0.1, 0.08}, {-0.04, 0.08, -0.1}},
	}[sym.Choose("misfit", 3)]
	if len(d) == 2 {
		e[0][2], e[2][0], e[1][2], e[2][1] = 0, 0, 0, 0
	}
	m := mat.NewDense(3, 3, nil)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			m.Set(i, j, e[i][j])
		}
	}
	h := pf.NewHomogeneousModolus("conc", d, iso(lam, mu), m)
	x := ref.Real("x", n, -1, 2)
	copy(h.Field, x)
	got := ref.IDFT(d, eval(h, n, pfutil.NewFFTW(d)))
	want := force(d, lam, mu, e, x)
	for i := range want {
		sym.CloseC("force", got[i], complex(want[i], 0), 1e-6)
	}
}

// HDefinition: the reference force is the derivative of the energy of the equilibrium strains.
func HDefinition() {
	sym.Bound("grids 1x2, 1x3, 2x2: seven point derivative (exact for the polynomial of degree six) of the energy of the reference strains at arbitrary fields in [-1,2]")
	d := ref.Grids("grid", [][]int{{1, 2}, {1, 3}, {2, 2}})
	n := ref.Num(d)
	lam, mu := 1.5, 0.8
	e := [3][3]float64{{0.1, 0.07, 0}, {0.07, -0.03, 0}, {0, 0, 0.02}}
	x := ref.Real("x", n, -1, 2)
	energy := func(x []float64) float64 {
		h := make([]complex128, n)
		for i := range h {
			h[i] = complex(hfun(x[i]), 0)
		}
		hk := ref.DFT(d, h, -1)
		s := stress(lam, mu, e)
		// displacement u_k = -i G f s H / (2 pi), strain = i pi (f_i u_j + f_j u_i)
		var eps [3][3][]complex128
		for i := range eps {
			for j := range eps[i] {
				eps[i][j] = make([]complex128, n)
			}
		}
		for k := range hk {
			f := freq(d, k)
			f2 := f[0]*f[0] + f[1]*f[1] + f[2]*f[2]
			if f2 == 0 {
				continue
			}
			var v, u [3]float64
			dot := 0.0
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					v[i] += s[i][j] * f[j]
				}
				dot += v[i] * f[i]
			}
			for i := 0; i < 3; i++ {
				u[i] = (v[i] - (lam+mu)/(lam+2*mu)*f[i]*dot/f2) / (mu * f2)
			}
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					eps[i][j][k] = complex(0.5*(f[i]*u[j]+f[j]*u[i]), 0) * hk[k]
				}
			}
		}
		tot := 0.0
		for i := range eps {
			for j := range eps[i] {
				eps[i][j] = ref.IDFT(d, eps[i][j])
			}
		}
		for q := 0; q < n; q++ {
			var el [3][3]float64
			for i := range el {
				for j := range el[i] {
					el[i][j] = real(eps[i][j][q]) - e[i][j]*real(h[q])
				}
			}
			st := stress(lam, mu, el)
			for i := range el {
				for j := range el[i] {
					tot += 0.5 * st[i][j] * el[i][j]
				}
			}
		}
		return tot
	}
	w := []float64{-1.0 / 60, 3.0 / 20, -3.0 / 4, 0, 3.0 / 4, -3.0 / 20, 1.0 / 60}
	want := force(d, lam, mu, e, x)
	i := sym.Choose("node", n)
	der := 0.0
	for q, c := range w {
		if c == 0 {
			continue
		}
		y := append([]float64(nil), x...)
		y[i] += float64(q-3) * 0.5
		der += c * energy(y) / 0.5
	}
	sym.Close("derivative", want[i], -der, 1e-5)
	_ = math.Pi
}

// HZero: cases without a force.
func HZero() {
	sym.Bound("zero misfit at any field; fields of zeros and ones (no slope of the indicator) at any misfit; grids 1x3, 2x2, 2x1x2")
	d := ref.Grids("grid", [][]int{{1, 3}, {2, 2}, {2, 1, 2}})
	n := ref.Num(d)
	lam, mu := material()
	var h *pf.HomogeneousModulusLinElast
	if sym.Choose("case", 2) == 0 {
		h = pf.NewHomogeneousModolus("conc", d, iso(lam, mu), mat.NewDense(3, 3, nil))
		copy(h.Field, ref.Real("x", n, -1, 2))
	} else {
		_, m := misfit(len(d))
		h = pf.NewHomogeneousModolus("conc", d, iso(lam, mu), m)
		mask := sym.Choose("mask", 1<<uint(n))
		for i := range h.Field {
			h.Field[i] = float64(mask >> uint(i) & 1)
		}
	}
	for _, v := range eval(h, n, pfutil.NewFFTW(d)) {
		sym.CloseC("zero", v, 0, 1e-9)
	}
}

// HRefresh: the force follows the field.
func HRefresh() {
	sym.Bound("grids 1x3 and 2x1x2; two notifications with new arbitrary (complex) field values, and two solver steps with a model that has the elastic term")
	d := ref.Grids("grid", [][]int{{1, 3}, {2, 1, 2}})
	n := ref.Num(d)
	lam, mu := 1.0, 2.0
	e := [3][3]float64{{0.1, 0.07, 0}, {0.07, -0.03, 0}, {0, 0, 0.02}}
	m := mat.NewDense(3, 3, []float64{0.1, 0.07, 0, 0.07, -0.03, 0, 0, 0, 0.02})
	ft := pfutil.NewFFTW(d)
	if sym.Choose("driver", 2) == 0 {
		h := pf.NewHomogeneousModolus("conc", d, iso(lam, mu), m)
		for rep := 0; rep < 2; rep++ {
			x := ref.Cplx(fmt.Sprintf("x%d_", rep), n, -1, 2)
			h.OnStepFinished(1, map[string]pf.Brick{"conc": pf.NewField("conc", n, x), "eta": pf.NewField("eta", n, nil)})
			re := make([]float64, n)
			for i := range re {
				re[i] = real(x[i])
			}
			got := ref.IDFT(d, eval(h, n, ft))
			for i, w := range force(d, lam, mu, e, re) {
				sym.CloseC("refreshed", got[i], complex(w, 0), 1e-6)
			}
		}
		return
	}
	b, h := mdl.Elastic(d, iso(lam, mu), m)
	dt := sym.Float("dt", 0.01, 0.5)
	s := pf.NewSolver(&b.M, d, dt)
	for rep := 0; rep < 2; rep++ {
		want := force(d, lam, mu, e, h.Field)
		x := append([]float64(nil), h.Field...)
		s.Propagate(1)
		for i := range x {
			sym.Close("step", real(b.M.Fields[0].Data[i]), x[i]+dt*want[i], 1e-6)
			sym.Close("field", h.Field[i], real(b.M.Fields[0].Data[i]), 0)
			// continue from arbitrary values
			v := sym.Float(fmt.Sprintf("y%d_%d", rep, i), -1, 2)
			h.Field[i] = v
			b.M.Fields[0].Data[i] = complex(v, 0)
		}
	}
}

// HLong: given fields on long axes, any misfit.
func HLong() {
	list := [][]int{{1, 51}, {50, 1}, {1, 1, 33}, {1, 32, 1}}
	sym.Bound(fmt.Sprint("long axes: grids ", list, " with a given field, lambda 1, mu 2, every misfit component in [-0.3,0.3] (as above)"))
	d := ref.Grids("long", list)
	n := ref.Num(d)
	e, m := misfit(len(d))
	h := pf.NewHomogeneousModolus("conc", d, iso(1, 2), m)
	x := make([]float64, n)
	for i := range x {
		x[i] = float64((i*i*7+i*3)%11) / 10
	}
	copy(h.Field, x)
	want := force(d, 1, 2, e, x)
	wk := make([]complex128, n)
	for i := range wk {
		wk[i] = complex(want[i], 0)
	}
	out := make([]complex128, n)
	ft := pfutil.NewFFTW(d)
	h.Construct(nil)(ft.Freq, 0, out)
	ref.CloseAll("force", out, ref.DFT(d, wk, -1), 1e-5)
}
