package p07

import (
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/mdl"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

const tol = 1e-6

func step(s *mdl.Sys, eu *pf.Euler, filt *mdl.Filt, dt float64, quad bool) {
	y := s.Hat()
	var q []complex128
	if quad {
		x := make([]complex128, s.N)
		for k := range x {
			x[k] = s.M.Fields[0].Data[k] * s.M.Fields[0].Data[k]
			if s.NF > 1 {
				x[k] *= s.M.Fields[1].Data[k]
			}
		}
		q = ref.DFT(s.D, x, -1)
	}
	t := float64(eu.CurrentStep) * dt
	before := eu.CurrentStep
	eu.Step(&s.M)
	z := s.Hat()
	for i := range y {
		for k := range y[i] {
			n := s.NL(i, k, y, t)
			if quad {
				n += q[k]
			}
			w := y[i][k] + complex(dt, 0)*n
			if filt != nil {
				w *= complex(filt.At(s.D, k), 0)
			}
			sym.CloseC("update", z[i][k]*(1-complex(dt, 0)*s.Lin(i, k, t)), w, tol)
		}
	}
	sym.EqInt("steps", eu.CurrentStep, before+1)
	sym.Close("clock", eu.GetTime(), t+dt, 1e-9)
}

func HCoupled() {
	sym.Bound("one to three fields coupled by arbitrary coefficients, arbitrary complex explicit values and arbitrary implicit coefficients per mode, parts proportional to the time in both, any dt in [0.01,0.5], start step 0..3; grids 2x3, 3x2, 2x1x2; optional filter a+b*x")
	d := ref.Grids("grid", [][]int{{2, 3}, {3, 2}, {1, 4}, {2, 1, 2}, {1, 1, 3}})
	nf := 1 + sym.Choose("fields", 3)
	s := mdl.New(d, nf, mdl.Opt{Complex: true, Implicit: true, Free: true, Time: true, Couple: true, TimeA: true})
	s.M.Init()
	dt := sym.Float("dt", 0.01, 0.5)
	eu := &pf.Euler{Dt: dt, FT: pfutil.NewFFTW(d), CurrentStep: sym.Choose("start", 2) * 3}
	var f *mdl.Filt
	if sym.Choose("filter", 2) == 1 {
		f = &mdl.Filt{sym.Float("fa", -1, 1), sym.Float("fb", -1, 1)}
		eu.SetFilter(f)
	}
	step(s, eu, f, dt, false)
}

func HSteps() {
	sym.Bound("two and three consecutive steps, two coupled fields, real coefficients, 1x2 and 1x3 grids; Propagate performs that many steps")
	d := ref.Grids("grid", [][]int{{1, 2}, {3, 1}})
	s := mdl.New(d, 2, mdl.Opt{Time: true, Couple: true, Free: true})
	s.M.Init()
	dt := sym.Float("dt", 0.01, 0.5)
	eu := &pf.Euler{Dt: dt, FT: pfutil.NewFFTW(d)}
	step(s, eu, nil, dt, false)
	step(s, eu, nil, dt, false)
	step(s, eu, nil, dt, false)
}

func HPropagate() {
	sym.Bound("Propagate(n) for n=0..3 equals n single steps")
	d := []int{1, 3}
	n := sym.Choose("n", 4)
	s := mdl.New(d, 2, mdl.Opt{Time: true, Couple: true})
	s.M.Init()
	dt := sym.Float("dt", 0.01, 0.5)
	eu := &pf.Euler{Dt: dt, FT: pfutil.NewFFTW(d)}
	y := s.Hat()
	for q := 0; q < n; q++ {
		z := make([][]complex128, len(y))
		for i := range y {
			z[i] = make([]complex128, len(y[i]))
			for k := range z[i] {
				z[i][k] = y[i][k] + complex(dt, 0)*s.NL(i, k, y, float64(q)*dt)
			}
		}
		y = z
	}
	eu.Propagate(n, &s.M)
	z := s.Hat()
	for i := range y {
		ref.CloseAll("state", z[i], y[i], tol)
	}
	sym.EqInt("steps", eu.CurrentStep, n)
}

func HText() {
	sym.Bound("two fields with a quadratic product given by text next to arbitrary coefficients; derived fields are taken from the state at the start of the step, also when the state was changed after the model was initialised; start step 0 and 3; 1x3 grid")
	d := []int{1, 3}
	s := mdl.New(d, 2, mdl.Opt{Implicit: true, Couple: true, TimeA: true, Extra: []string{" + conc^2*eta", " + conc^2*eta"}})
	s.M.Init()
	if sym.Choose("changed", 2) == 1 {
		for _, f := range s.M.Fields {
			copy(f.Data, ref.ToC(ref.Real("new"+f.Name, s.N, -2, 2)))
		}
	}
	dt := sym.Float("dt", 0.01, 0.5)
	eu := &pf.Euler{Dt: dt, FT: pfutil.NewFFTW(d), CurrentStep: 3 * sym.Choose("start", 2)}
	quad2(s, eu, dt)
}

func quad2(s *mdl.Sys, eu *pf.Euler, dt float64) {
	x := make([]complex128, s.N)
	for k := range x {
		x[k] = s.M.Fields[0].Data[k] * s.M.Fields[0].Data[k] * s.M.Fields[1].Data[k]
	}
	q := ref.DFT(s.D, x, -1)
	y := s.Hat()
	t := float64(eu.CurrentStep) * dt
	eu.Step(&s.M)
	z := s.Hat()
	for i := range y {
		for k := range y[i] {
			w := y[i][k] + complex(dt, 0)*(s.NL(i, k, y, t)+q[k])
			sym.CloseC("update", z[i][k]*(1-complex(dt, 0)*s.Lin(i, k, t)), w, tol)
		}
	}
}

func HParts() {
	sym.Bound("two and three fields whose equations stand in any order, each equation with one source and one modifier that multiplies by an arbitrary number: every field gets the right-hand side of its own equation; grid 1x2")
	d := []int{1, 2}
	n := 2
	nf := 2 + sym.Choose("fields", 2)
	orders := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {1, 0, 2}}
	ord := []int{}
	for _, i := range orders[sym.Choose("order", len(orders))] {
		if i < nf {
			ord = append(ord, i)
		}
	}
	m := pf.NewModel()
	for i := 0; i < nf; i++ {
		m.AddField(pf.NewField(mdl.Names[i], n, ref.ToC(ref.Real(mdl.Names[i], n, -2, 2))))
	}
	for _, i := range ord {
		m.AddEquation("d" + mdl.Names[i] + "/dt = " + mdl.Names[(i+1)%nf])
	}
	m.Init()
	src := make([]float64, nf)
	mul := make([]float64, nf)
	for i := range src {
		src[i] = sym.Float("source"+mdl.Names[i], -2, 2)
		mul[i] = sym.Float("factor"+mdl.Names[i], -2, 2)
		v, c := src[i], complex(mul[i], 0)
		e := m.EqNumber(mdl.Names[i])
		m.AddSource(e, pf.NewSource([]float64{0, 0}, func(t float64) float64 { return v * (1 + t) }))
		m.RegisterRHSModifier(e, func(data []complex128) {
			for k := range data {
				data[k] *= c
			}
		})
	}
	y := make([][]complex128, nf)
	for i := range y {
		y[i] = ref.DFT(d, m.Fields[i].Data, -1)
	}
	dt := sym.Float("dt", 0.01, 0.5)
	eu := &pf.Euler{Dt: dt, FT: pfutil.NewFFTW(d), CurrentStep: 2}
	eu.Step(&m)
	for i := range y {
		z := ref.DFT(d, m.Fields[i].Data, -1)
		for k := range z {
			w := y[i][k] + complex(dt*mul[i], 0)*(y[(i+1)%nf][k]+complex(src[i]*(1+2*dt), 0))
			sym.CloseC("update", z[k], w, tol)
		}
	}
}

func HClock() {
	sym.Bound("the clock after up to 10^12 steps, any dt in [1e-6,100]")
	n := sym.Int("steps", 0, 1000000000000)
	dt := sym.Float("dt", 1e-6, 100)
	eu := pf.Euler{Dt: dt, CurrentStep: n}
	sym.Close("clock", eu.GetTime()/dt, float64(n), 1e-3)
}
