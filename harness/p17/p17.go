// Package p17 checks the volume conserving multiplier.
package p17

import (
	"fmt"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

func nonzero(name string) float64 {
	v := sym.Float(name, 0.05, 4)
	if sym.Choose(name+"sign", 2) == 1 {
		return -v
	}
	return v
}

func sum(x []complex128) float64 {
	s := 0.0
	for _, v := range x {
		s += real(v)
	}
	return s
}

// HUpdates: sequences of updates with arbitrary bricks.
func HUpdates() {
	n := []int{1, 2, 3, 100}[sym.Choose("nodes", 4)]
	updates := 4
	if sym.Thorough() {
		updates = 6
	}
	sym.Bound(fmt.Sprintf("one to three nodes, and 100 nodes with arbitrary values at three of them, %d updates, arbitrary field values, complex indicator amplitudes with mean amplitude of magnitude 0.05 to 4 and either sign at the first updates, any start multiplier, step size in [0.001,10] that may change between updates", updates))
	dt := sym.Float("dt", 0.001, 10)
	v := pf.NewVolumeConservingLP("conc", "indic", dt, n)
	sym.Close("start", v.Multiplier, 0, 0)
	mult := 0.0
	if sym.Choose("preset", 2) == 1 {
		mult = sym.Float("mult", -5, 5)
		v.Multiplier = mult
	}
	last := 0.0
	for u := 0; u < updates; u++ {
		x := some(fmt.Sprintf("x%d_", u), n)
		ind := some(fmt.Sprintf("i%d_", u), n)
		if u < 2 {
			ind[0] = complex(nonzero(fmt.Sprintf("h%d", u)), imag(ind[0]))
		} else {
			ind[0] = complex(sym.Float(fmt.Sprintf("h%d", u), 0.05, 4), imag(ind[0]))
		}
		if u == 2 {
			dt = sym.Float("dt2", 0.001, 10)
			v.Dt = dt
		}
		bricks := map[string]pf.Brick{
			"conc":  pf.NewField("conc", n, ref.CopyC(x)),
			"indic": pf.NewField("indic", n, ref.CopyC(ind)),
			"other": pf.NewField("other", n, ref.Cplx(fmt.Sprintf("o%d_", u), n, -2, 2)),
		}
		eval := func(when string) {
			out := ref.Cplx("junk", n, -1, 1)
			v.Construct(bricks)(func(i int) []float64 { return []float64{0.1, 0.2} }, sym.Float("t", 0, 5), out)
			for i := range out {
				sym.CloseC("term."+when, out[i], complex(mult, 0)*ind[i], 1e-9)
			}
		}
		eval("before")
		eval("again")
		v.OnStepFinished(float64(u)*dt, bricks)
		if u > 0 {
			mult -= (sum(x) - last) / (dt * real(ind[0]))
		}
		last = sum(x)
		sym.Close(fmt.Sprintf("multiplier%d", u), v.Multiplier, mult, 1e-7)
		mult = v.Multiplier // exactly the stored one from here on
		eval("after")
		ref.CloseAll("field", bricks["conc"].(pf.Field).Data, x, 0)
		ref.CloseAll("indicator", bricks["indic"].(pf.Field).Data, ind, 0)
	}
}

// HConstant: no drift, no change.
func HConstant() {
	sym.Bound("two nodes, four updates of fields with the same integral, arbitrary values otherwise")
	dt := sym.Float("dt", 0.001, 10)
	v := pf.NewVolumeConservingLP("conc", "indic", dt, 2)
	mult := sym.Float("mult", -5, 5)
	v.Multiplier = mult
	total := sym.Float("total", -2, 2)
	for u := 0; u < 4; u++ {
		a := sym.Float(fmt.Sprintf("a%d", u), -2, 2)
		bricks := map[string]pf.Brick{
			"conc":  pf.NewField("conc", 2, []complex128{complex(a, sym.Float("im", -1, 1)), complex(total-a, 0)}),
			"indic": pf.NewField("indic", 2, []complex128{complex(nonzero(fmt.Sprintf("h%d", u)), 0), complex(sym.Float("i", -1, 1), 0)}),
		}
		v.OnStepFinished(0, bricks)
		sym.Close("constant", v.Multiplier, mult, 1e-9)
	}
}

// HSolver: the term inside a model, driven by the solver.
func HSolver() {
	d := ref.Grids("grid", [][]int{{1, 2}, {2, 2}})
	sym.Bound("grids 1x2, 2x2; one field with dconc/dt = VOLUME + source term, indicator 1 + c*conc registered as a function, two Euler steps (three in the thorough tier), arbitrary start values in [-1,1], c in [0,0.2], step size in [0.01,0.2], source in [-1,1]")
	n := ref.Num(d)
	m := pf.NewModel()
	x := ref.Real("conc", n, -1, 1)
	m.AddField(pf.NewField("conc", n, ref.ToC(x)))
	c := sym.Float("c", 0, 0.2)
	src := sym.Float("src", -1, 1)
	dt := sym.Float("dt", 0.01, 0.2)
	m.RegisterFunction("indic", func(i int, b map[string]pf.Brick) complex128 {
		return complex(1+c*real(b["conc"].Get(i)), 0)
	})
	m.RegisterFunction("growth", func(i int, b map[string]pf.Brick) complex128 { return complex(src, 0) })
	v := pf.NewVolumeConservingLP("conc", "indic", dt, n)
	m.RegisterExplicitTerm("VOLUME", &v, nil)
	m.AddEquation("dconc/dt = VOLUME + growth")
	s := pf.NewSolver(&m, d, dt)
	mult, last := 0.0, 0.0
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	for u := 0; u < steps; u++ {
		ind, tot := 0.0, 0.0
		want := make([]float64, n)
		for i := range x {
			h := 1 + c*x[i]
			ind += h
			want[i] = x[i] + dt*(mult*h+src)
		}
		s.Propagate(1)
		for i := range x {
			sym.Close("step", real(m.Fields[0].Data[i]), want[i], 1e-7)
			x[i] = real(m.Fields[0].Data[i])
			tot += x[i]
		}
		if u > 0 {
			// the update multiplied by the (positive) denominator
			sym.Close("drift", (v.Multiplier-mult)*dt*ind, last-tot, 1e-6)
		} else {
			sym.Close("first", v.Multiplier, 0, 0)
		}
		mult, last = v.Multiplier, tot
	}
}

// HMissing: a missing indicator is refused.
func HMissing() {
	v := pf.NewVolumeConservingLP("conc", "indic", 0.1, 1)
	sym.Assert("refused", sym.Panics(func() {
		v.Construct(map[string]pf.Brick{"conc": pf.NewField("conc", 1, nil)})(func(i int) []float64 { return nil }, 0, make([]complex128, 1))
	}))
}

// some is n arbitrary values, or arbitrary ones among many zeros.
func some(name string, n int) []complex128 {
	if n <= 3 {
		return ref.Cplx(name, n, -2, 2)
	}
	out := make([]complex128, n)
	for k, v := range ref.Cplx(name, 3, -2, 2) {
		out[k*(n-1)/2] = v
	}
	return out
}
