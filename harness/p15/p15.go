// Package p15 checks sources, right-hand-side modifiers and filters.
package p15

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/mdl"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

const tol = 1e-8

func grids(list [][]int, more ...[]int) []int {
	if sym.Thorough() {
		list = append(list, more...)
	}
	sym.Bound("grids " + fmt.Sprint(list))
	return ref.Grids("grid", list)
}

func pos(d []int, node int) []float64 {
	p := make([]float64, len(d))
	for a, x := range ref.Crd(d, node) {
		p[a] = float64(x)
	}
	return p
}

// system makes nf fields, each with an arbitrary explicit right-hand side. The equations are added in the order of the
// fields or starting with another one; owner is the field of each equation.
func system(d []int, nf int) (m0 *pf.Model, base [][]complex128, owner []int) {
	first := 0
	if nf > 1 {
		first = sym.Choose("first equation", 2)
	}
	m := pf.NewModel()
	n := ref.Num(d)
	for i := 0; i < nf; i++ {
		m.AddField(pf.NewField(mdl.Names[i], n, nil))
		base = append(base, ref.Cplx(fmt.Sprintf("B%d", i), n, -2, 2))
	}
	for e := 0; e < nf; e++ {
		i := (e + first) % nf
		owner = append(owner, i)
		ex := fmt.Sprintf("EXPL%d", i)
		m.RegisterExplicitTerm(ex, &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 { return base[i][k] }}, nil)
		m.AddEquation("d" + mdl.Names[i] + "/dt = " + ex)
	}
	return &m, base, owner
}

type src struct {
	eq, node int
	a, b     float64
}

// HSource: the right-hand side with point sources.
func HSource() {
	sym.Bound("one to three equations in the order of the fields or another, up to three sources at any node in any equation, time functions a+b*t with arbitrary a, b, any time in [0,10]")
	d := grids([][]int{{2, 3}, {3, 2}, {4, 2}, {1, 4}, {2, 2, 3}, {1, 3, 1}, {1, 1, 4}}, []int{3, 3}, []int{4, 4}, []int{3, 2, 2})
	n := ref.Num(d)
	nf := 1 + sym.Choose("fields", 3)
	m, base, owner := system(d, nf)
	ft := pfutil.NewFFTW(d)
	var list []src
	ns := 1 + sym.Choose("sources", 3)
	for q := 0; q < ns; q++ {
		s := src{a: sym.Float(fmt.Sprintf("a%d", q), -3, 3), b: sym.Float(fmt.Sprintf("b%d", q), -3, 3)}
		if q == 0 {
			s.node = sym.Choose("node", n)
			s.eq = sym.Choose("eq", nf)
		} else {
			s.node = (list[0].node + (q-1)*(n-1)) % n // the same node again, and another one
			s.eq = (list[0].eq + q/2) % nf
		}
		list = append(list, s)
		a, b := s.a, s.b
		m.AddSource(s.eq, pf.NewSource(pos(d, s.node), func(t float64) float64 { return a + b*t }))
	}
	m.Init()
	t := sym.Float("t", 0, 10)
	for i := 0; i < nf; i++ {
		got := m.GetRHS(i, ft.Freq, t)
		for k := range got {
			got[k] -= base[i][k]
		}
		want := make([]complex128, n)
		for _, s := range list {
			if owner[s.eq] == i {
				want[s.node] += complex(s.a+s.b*t, 0)
			}
		}
		ref.CloseAll("source", ref.IDFT(d, got), want, tol)
	}
}

// HStep: a source in a run of the solver.
func HStep() {
	sym.Bound("two steps with the semi-implicit Euler and the Runge-Kutta stepper, start step 0 and 3, a source with an arbitrary quadratic time function at any node; any step size in [0.01,1]")
	d := grids([][]int{{2, 3}, {4, 2}, {2, 2, 2}, {1, 4}, {1, 1, 3}}, []int{3, 3}, []int{3, 2, 2})
	n := ref.Num(d)
	m := pf.NewModel()
	x := ref.Real("conc", n, -1, 1)
	y := ref.Real("eta", n, -1, 1)
	m.AddField(pf.NewField("conc", n, ref.ToC(x)))
	m.AddField(pf.NewField("eta", n, ref.ToC(y)))
	m.AddScalar(pf.NewScalar("zero", 0))
	m.AddEquation("dconc/dt = zero*conc^2")
	m.AddEquation("deta/dt = zero*eta^2")
	a, b, c := sym.Float("a", -2, 2), sym.Float("b", -2, 2), sym.Float("c", -2, 2)
	f := func(t float64) float64 { return a + b*t + c*t*t }
	node := sym.Choose("node", n)
	m.AddSource(0, pf.NewSource(pos(d, node), f))
	h := sym.Float("dt", 0.01, 1)
	s := pf.NewSolver(&m, d, h)
	start := 3 * sym.Choose("start", 2)
	rk := sym.Choose("stepper", 2) == 1
	s.Stepper = &pf.Euler{Dt: h, FT: s.FT, CurrentStep: start}
	if rk {
		s.Stepper = &pf.RK4{Dt: h, FT: s.FT, CurrentStep: start}
	}
	for q := 0; q < 2; q++ {
		s.Propagate(1)
		t := float64(start+q) * h
		if rk {
			x[node] += h / 6 * (f(t) + 4*f(t+h/2) + f(t+h))
		} else {
			x[node] += h * f(t)
		}
		ref.CloseAll("field", m.Fields[0].Data, ref.ToC(x), 1e-7)
		ref.CloseAll("other", m.Fields[1].Data, ref.ToC(y), 1e-7)
	}
}

// HModifier: modifiers act on their own equation, in order, after terms and sources.
func HModifier() {
	sym.Bound("two and three equations in the order of the fields or another, one to three modifiers data -> p*data + q*conj(data of another node) + r with arbitrary p, q, r, every assignment to equations, with a source; grids 2x2 and 1x3")
	d := ref.Grids("grid", [][]int{{2, 2}, {1, 3}})
	n := ref.Num(d)
	nf := 2 + sym.Choose("fields", 2)
	m, base, owner := system(d, nf)
	ft := pfutil.NewFFTW(d)
	v := sym.Float("v", -2, 2)
	m.AddSource(1, pf.NewSource(make([]float64, len(d)), func(t float64) float64 { return v }))
	want := make([][]complex128, nf)
	for i := range want {
		want[i] = ref.CopyC(base[i])
		if i == owner[1] {
			for k := range want[i] {
				want[i][k] += complex(v, 0)
			}
		}
	}
	num := 1 + sym.Choose("modifiers", 3)
	for q := 0; q < num; q++ {
		eq := sym.Choose(fmt.Sprintf("eq%d", q), nf)
		p, w, r := sym.Float(fmt.Sprintf("p%d", q), -2, 2), sym.Float(fmt.Sprintf("q%d", q), -2, 2), sym.Float(fmt.Sprintf("r%d", q), -2, 2)
		f := func(data []complex128) {
			old := ref.CopyC(data)
			for k := range data {
				o := old[(k+1)%len(old)]
				data[k] = complex(p, 0)*old[k] + complex(w, 0)*complex(real(o), -imag(o)) + complex(r, 0)
			}
		}
		m.RegisterRHSModifier(eq, f)
		f(want[owner[eq]])
	}
	m.Init()
	for rep := 0; rep < 2; rep++ {
		for i := 0; i < nf; i++ {
			got := m.GetRHS(i, ft.Freq, 0)
			sym.EqInt("len", len(got), n)
			ref.CloseAll("modified", got, want[i], tol)
		}
	}
}

type poly struct{ c []float64 }

func (p *poly) Eval(x float64) float64 {
	s := 0.0
	for q := len(p.c) - 1; q >= 0; q-- {
		s = s*x + p.c[q]
	}
	return s
}

// HFilter: a filter multiplies each amplitude.
func HFilter() {
	sym.Bound("filters that are arbitrary cubic polynomials of the normalised frequency magnitude 2|f|/pi, arbitrary complex amplitudes; alone and set on the Euler (one and two steps) and Runge-Kutta steppers without dynamics, one and two fields")
	d := grids([][]int{{2, 3}, {4, 3}, {3, 2, 4}, {1, 4, 3}}, []int{6, 2}, []int{5, 4}, []int{2, 3, 4}, []int{4, 4, 1})
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	p := &poly{c: ref.Real("c", 4, -2, 2)}
	at := func(k int) complex128 {
		s := 0.0
		for _, f := range ref.F(d, k) {
			s += f * f
		}
		return complex(p.Eval(2*math.Sqrt(s)/math.Pi), 0)
	}
	st := sym.Choose("on", 4)
	if st == 0 {
		x := ref.Cplx("x", n, -2, 2)
		y := ref.CopyC(x)
		pf.ApplyModalFilter(p, ft.Freq, y)
		for k := range x {
			sym.CloseC("filter", y[k], x[k]*at(k), tol)
		}
		return
	}
	m := pf.NewModel()
	nf := 1 + sym.Choose("fields", 2)
	m.AddScalar(pf.NewScalar("zero", 0))
	var want [][]complex128
	for f := 0; f < nf; f++ {
		name := mdl.Names[f]
		x := ref.ToC(ref.Real(name, n, -1, 1))
		m.AddField(pf.NewField(name, n, x))
		m.AddEquation("d" + name + "/dt = zero*" + name + "^2")
		h := ref.DFT(d, ref.CopyC(x), -1)
		for k := range h {
			h[k] *= at(k)
			if st == 3 { // twice
				h[k] *= at(k)
			}
		}
		want = append(want, h)
	}
	s := pf.NewSolver(&m, d, 0.1)
	if st == 2 {
		s.SetStepper("rk4")
	}
	s.Stepper.SetFilter(p)
	s.Propagate(1)
	if st == 3 {
		s.Propagate(1)
	}
	for f := range want {
		ref.CloseAll("stepper", ref.DFT(d, m.Fields[f].Data, -1), want[f], 1e-7)
	}
}
