package p08

import (
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/mdl"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

const tol = 1e-6

// rk is the documented update of the transformed state y; quad adds transforms of products of the real space state.
func rk(s *mdl.Sys, y [][]complex128, t, h float64, quad func([][]complex128) [][]complex128) [][]complex128 {
	sum := make([][]complex128, s.NF)
	k := make([][]complex128, s.NF)
	for i := range sum {
		sum[i] = ref.CopyC(y[i])
		k[i] = make([]complex128, s.N)
	}
	at := []float64{0, 0.5, 0.5, 1}
	wt := []float64{1, 2, 2, 1}
	for q := range at {
		st := make([][]complex128, s.NF)
		for i := range st {
			st[i] = make([]complex128, s.N)
			for m := range st[i] {
				st[i][m] = y[i][m]
				if at[q] > 0 {
					st[i][m] = (y[i][m] + complex(at[q]*h, 0)*k[i][m]) / (1 - complex(at[q]*h, 0)*s.Lin(i, m, t))
				}
			}
		}
		var ex [][]complex128
		if quad != nil {
			ex = quad(st)
		}
		nk := make([][]complex128, s.NF)
		for i := range nk {
			nk[i] = make([]complex128, s.N)
			for m := range nk[i] {
				nk[i][m] = s.NL(i, m, st, t+at[q]*h)
				if ex != nil {
					nk[i][m] += ex[i][m]
				}
				sum[i][m] += complex(h*wt[q]/6, 0) * nk[i][m]
			}
		}
		k = nk
	}
	return sum
}

func compare(s *mdl.Sys, want [][]complex128, t, h float64, f *mdl.Filt) {
	z := s.Hat()
	for i := range z {
		for m := range z[i] {
			w := want[i][m]
			if f != nil {
				w *= complex(f.At(s.D, m), 0)
			}
			sym.CloseC("update", z[i][m]*(1-complex(h, 0)*s.Lin(i, m, t)), w, tol)
		}
	}
}

func HExplicit() {
	sym.Bound("no implicit terms: the classical four-stage update for one to three linearly coupled fields with arbitrary explicit values per mode and a time-proportional part, any dt in [0.01,0.5], start step 0 or 3; grids 2x3, 3x2, 2x1x2; optional filter")
	d := ref.Grids("grid", [][]int{{2, 3}, {3, 2}, {1, 4}, {2, 1, 2}, {1, 1, 3}})
	nf := 1 + sym.Choose("fields", 2)
	s := mdl.New(d, nf, mdl.Opt{Free: true, Time: true, Couple: true})
	one(s)
}

func HImplicit() {
	sym.Bound("arbitrary implicit coefficients per mode, for one field also with a part proportional to the time of the start of the step, one and two fields, 1x2 and 3x1 grids, any dt in [0.01,0.5], start step 0 or 3")
	d := ref.Grids("grid", [][]int{{1, 2}, {3, 1}})
	nf := 1 + sym.Choose("fields", 2)
	s := mdl.New(d, nf, mdl.Opt{Implicit: true, Time: true, TimeA: nf == 1, Couple: nf == 1, Free: nf == 2})
	one(s)
}

func one(s *mdl.Sys) {
	s.M.Init()
	h := sym.Float("dt", 0.01, 0.5)
	r := &pf.RK4{Dt: h, FT: pfutil.NewFFTW(s.D), CurrentStep: 3 * sym.Choose("start", 2)}
	var f *mdl.Filt
	if sym.Choose("filter", 2) == 1 {
		f = &mdl.Filt{sym.Float("fa", -1, 1), sym.Float("fb", -1, 1)}
		r.SetFilter(f)
	}
	start := r.CurrentStep
	t := float64(start) * h
	sym.Close("clock", r.GetTime(), t, 1e-9)
	want := rk(s, s.Hat(), t, h, nil)
	r.Step(&s.M)
	compare(s, want, t, h, f)
	sym.EqInt("steps", r.CurrentStep, start+1)
	sym.Close("clock", r.GetTime(), t+h, 1e-9)
}

func HQuadratic() {
	sym.Bound("quadratic right-hand side given by text with arbitrary coefficient, one field on 1x1 and 1x2 and two fields on 1x1, with and without implicit part; derived fields are those of each stage")
	kind := sym.Choose("kind", 3)
	var s *mdl.Sys
	d := []int{1, 1}
	if kind == 1 {
		d = []int{1, 2}
	}
	h := 0.125
	if kind == 2 {
		s = mdl.New(d, 2, mdl.Opt{Extra: []string{" + rate*conc*eta", " - eta^2"}})
	} else {
		s = mdl.New(d, 1, mdl.Opt{Implicit: kind == 0, Extra: []string{" + rate*conc^2"}})
	}
	rate := sym.Float("rate", -2, 2)
	s.M = rebuild(s, rate)
	s.M.Init()
	inv := func(x []complex128) []complex128 { return ref.IDFT(d, x) }
	quad := func(st [][]complex128) [][]complex128 {
		x := make([][]complex128, len(st))
		for i := range st {
			x[i] = inv(st[i])
		}
		out := make([][]complex128, len(st))
		for i := range st {
			p := make([]complex128, s.N)
			for k := range p {
				switch {
				case kind == 2 && i == 0:
					p[k] = complex(rate, 0) * x[0][k] * x[1][k]
				case kind == 2:
					p[k] = -x[1][k] * x[1][k]
				default:
					p[k] = complex(rate, 0) * x[0][k] * x[0][k]
				}
			}
			out[i] = ref.DFT(d, p, -1)
		}
		return out
	}
	r := &pf.RK4{Dt: h, FT: pfutil.NewFFTW(d)}
	want := rk(s, s.Hat(), 0, h, quad)
	r.Step(&s.M)
	compare(s, want, 0, h, nil)
}

// rebuild makes the same model again with the scalar known before the equations.
func rebuild(s *mdl.Sys, rate float64) pf.Model {
	m := s.M
	m.AddScalar(pf.NewScalar("rate", complex(rate, 0)))
	return m
}

func HPropagate() {
	sym.Bound("two and three steps through Propagate and through repeated Step give the composed update and advance the clock; one field, 1x2 grid")
	d := []int{1, 2}
	n := sym.Choose("n", 4)
	s := mdl.New(d, 1, mdl.Opt{Time: true, Couple: true})
	s.M.Init()
	h := sym.Float("dt", 0.01, 0.5)
	r := &pf.RK4{Dt: h, FT: pfutil.NewFFTW(d)}
	y := s.Hat()
	for q := 0; q < n; q++ {
		y = rk(s, y, float64(q)*h, h, nil)
	}
	if sym.Choose("by", 2) == 0 {
		r.Propagate(n, &s.M)
	} else {
		for q := 0; q < n; q++ {
			r.Step(&s.M)
		}
	}
	compare(s, y, 0, 0, nil)
	sym.EqInt("steps", r.CurrentStep, n)
	sym.Close("clock", r.GetTime(), float64(n)*h, 1e-9)
}

func HClock() {
	sym.Bound("the clock after up to 10^12 steps, any dt in [1e-6,100]")
	n := sym.Int("steps", 0, 1000000000000)
	dt := sym.Float("dt", 1e-6, 100)
	r := pf.RK4{Dt: dt, CurrentStep: n}
	sym.Close("clock", r.GetTime()/dt, float64(n), 1e-3)
}
