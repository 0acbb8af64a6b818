package p11

import (
	"fmt"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/zverif/mdl"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

type event struct {
	kind string // "term", "cb", "mon", "step"
	id   int
	t    float64
	n    int
}

type run struct {
	log   []event
	m     pf.Model
	s     *pf.Solver
	dt    float64
	nterm int
}

func (r *run) add(kind string, id int, t float64, n int) {
	r.log = append(r.log, event{kind, id, t, n})
}

type mon struct {
	r  *run
	id int
	f  string
}

func (m *mon) Add(b map[string]pf.Brick) { m.r.add("mon", m.id, real(b[m.f].Get(0)), 0) }

// count is a stepper that only counts.
type count struct {
	r  *run
	n  int
	dt float64
}

func (c *count) Step(m *pf.Model) {
	c.n++
	c.r.add("step", 0, 0, 0)
	m.Fields[0].Data[0] += 1
}
func (c *count) SetFilter(f pf.ModalFilter) {}
func (c *count) GetTime() float64           { return float64(c.n) * c.dt }

func build(stepper int) *run {
	r := &run{m: pf.NewModel()}
	r.m.AddField(pf.NewField("conc", 2, ref.ToC(ref.Real("conc", 2, -1, 1))))
	// zero to two terms of every kind, used in the equation or only registered
	kinds := []string{"IMPL", "EXPL", "MIX"}
	eq := "dconc/dt = BASE"
	zero := func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 { return 0 }
	r.m.RegisterExplicitTerm("BASE", &mdl.Term{F: zero, Done: func(t float64, b map[string]pf.Brick) { r.add("term", 0, t, 0) }}, nil)
	r.nterm = 1
	cfg := sym.Choose("terms", 5)
	for k, n := range kinds {
		num := []int{0, 1, 2, 1, 0}[cfg]
		if cfg == 3 && k != 1 {
			num = 2
		}
		if cfg == 4 && k == 2 {
			num = 1
		}
		for j := 0; j < num; j++ {
			id := r.nterm
			r.nterm++
			tm := &mdl.Term{F: zero, L: zero, Done: func(t float64, b map[string]pf.Brick) { r.add("term", id, t, 0) }}
			name := fmt.Sprintf("%s%d", n, j)
			switch k {
			case 0:
				r.m.RegisterImplicitTerm(name, tm, nil)
			case 1:
				r.m.RegisterExplicitTerm(name, tm, nil)
			default:
				r.m.RegisterMixedTerm(name, tm, nil)
			}
			if j == 0 {
				eq += " + " + name
			}
		}
	}
	r.m.AddEquation(eq)
	r.dt = sym.Float("dt", 0.01, 1)
	r.s = pf.NewSolver(&r.m, []int{1, 2}, r.dt)
	switch stepper {
	case 1:
		r.s.SetStepper("euler")
	case 2:
		r.s.SetStepper("rk4")
	case 3:
		r.s.Stepper = &count{r: r, dt: r.dt}
	}
	return r
}

// check consumes the events of one run of Solve.
func (r *run) check(epochs, steps, start, doneSteps, ncb, nmon int) {
	k := 0
	next := func() event {
		sym.Assert("event missing", k < len(r.log))
		e := r.log[k]
		k++
		return e
	}
	_, counted := r.s.Stepper.(*count)
	n := doneSteps
	for e := 0; e < epochs; e++ {
		for q := 0; q < steps; q++ {
			n++
			if counted {
				sym.Assert("step first", next().kind == "step")
			}
			seen := make([]int, r.nterm)
			for j := 0; j < r.nterm; j++ {
				v := next()
				sym.Assert("term notified", v.kind == "term")
				seen[v.id]++
				sym.Close("time after the step", v.t, float64(n)*r.dt, 1e-9)
			}
			for j := range seen {
				sym.EqInt("notified once", seen[j], 1)
			}
		}
		for c := 0; c < ncb; c++ {
			v := next()
			sym.Assert("callback in order", v.kind == "cb" && v.id == c)
			sym.EqInt("epoch number", v.n, start+e)
			sym.Close("time at callback", v.t, float64(n)*r.dt, 1e-9)
		}
		for c := 0; c < nmon; c++ {
			v := next()
			sym.Assert("monitor once", v.kind == "mon" && v.id == c)
		}
	}
	sym.EqInt("nothing else", len(r.log), k)
	sym.Close("clock", r.s.Stepper.GetTime(), float64(n)*r.dt, 1e-9)
}

func HSolve() {
	sym.Bound("0..3 epochs of 0..3 steps, twice in a row, any start epoch in [-5,1000], 0..2 callbacks, 0..2 monitors, up to six registered terms of all kinds; default, euler, rk4 and a custom stepper; any dt")
	r := build(sym.Choose("stepper", 4))
	ncb, nmon := sym.Choose("callbacks", 3), sym.Choose("monitors", 3)
	start := sym.Int("start", -5, 1000)
	r.s.StartEpoch = start
	for c := 0; c < ncb; c++ {
		c := c
		r.s.AddCallback(func(s *pf.Solver, epoch int) {
			sym.Assert("same solver", s == r.s)
			r.add("cb", c, s.Stepper.GetTime(), epoch)
		})
	}
	for c := 0; c < nmon; c++ {
		r.s.AddMonitor(&mon{r, c, "conc"})
	}
	e, q := sym.Choose("epochs", 4), sym.Choose("steps", 3)
	r.s.Solve(e, q)
	r.check(e, q, start, 0, ncb, nmon)
	r.log = nil
	r.s.Solve(2, 1)
	r.check(2, 1, start, e*q, ncb, nmon)
}

// HLong has many steps and epochs, in several calls.
func HLong() {
	sym.Bound("12 epochs of 3 steps, 2 epochs of 24 steps and 25 epochs of one step, after 0, 5 or 40 steps taken by Propagate, two callbacks and two monitors, start epoch 0, 9 or any to 1000; counting, euler and rk4 steppers with any dt")
	r := build(1 + sym.Choose("stepper", 3))
	start := []int{0, 9, sym.Int("start", 0, 1000)}[sym.Choose("first", 3)]
	r.s.StartEpoch = start
	for c := 0; c < 2; c++ {
		c := c
		r.s.AddCallback(func(s *pf.Solver, epoch int) { r.add("cb", c, s.Stepper.GetTime(), epoch) })
		r.s.AddMonitor(&mon{r, c, "conc"})
	}
	k := sym.Choose("run", 3)
	before := []int{0, 5, 40}[k]
	e, q := []int{12, 2, 25}[k], []int{3, 24, 1}[k]
	r.s.Propagate(before)
	r.log = nil
	r.s.Solve(e, q)
	r.check(e, q, start, before, 2, 2)
}

func HMonitor() {
	sym.Bound("point monitors of two fields at every site of a 1x2 grid hold the real part of the field after each of up to three epochs")
	r := build(3)
	site := sym.Choose("site", 2)
	p := pf.NewPointMonitor(site, "conc")
	r.s.AddMonitor(&p)
	base := r.m.Fields[0].Data[site]
	e := 1 + sym.Choose("epochs", 3)
	r.s.Solve(e, 2)
	sym.EqInt("records", len(p.Data), e)
	for k := range p.Data {
		want := real(base)
		if site == 0 {
			want += float64(2 * (k + 1))
		}
		sym.Close("monitored value", p.Data[k], want, 1e-9)
	}
}

func HPropagate() {
	sym.Bound("Propagate(n), n=0..4, notifies every term once per step and advances the clock")
	r := build(sym.Choose("stepper", 4))
	n := sym.Choose("n", 5)
	r.s.Propagate(n)
	r.check(1, n, 0, 0, 0, 0)
}

func HStepper() {
	sym.Bound("unknown stepper names are refused; a domain size that does not fit the fields is refused")
	r := build(0)
	name := []string{"", "Euler", "rk", "implicit"}[sym.Choose("name", 4)]
	sym.Assert("refused", sym.Panics(func() { r.s.SetStepper(name) }))
	d := [][]int{{1, 3}, {2, 2}, {1, 1}, {2, 1, 2}}[sym.Choose("size", 4)]
	sym.Assert("size refused", sym.Panics(func() { pf.NewSolver(&r.m, d, 0.1) }))
}
