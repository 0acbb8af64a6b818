// Package p14 checks that real fields stay real.
package p14

import (
	"fmt"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/mdl"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
	"gonum.org/v1/gonum/mat"
)

const tol = 1e-7

func grids(list [][]int, more ...[]int) []int {
	if sym.Thorough() {
		list = append(list, more...)
	}
	sym.Bound("grids " + fmt.Sprint(list))
	return ref.Grids("grid", list)
}

// symmetric states that the amplitudes belong to a real field.
func symmetric(label string, d []int, x []complex128) {
	for k := range x {
		c := ref.Conj(d, k)
		if c >= k {
			sym.CloseC(label, x[k], complex(real(x[c]), -imag(x[c])), tol)
		}
	}
}

func check(b *mdl.Built) {
	b.M.Init()
	b.M.SyncDerivedFields()
	for _, f := range b.M.DerivedFields {
		for i := range f.Data {
			sym.Close("derived."+f.Name, imag(f.Data[i]), 0, tol)
		}
	}
	for _, f := range b.M.Fields {
		b.FT.FFT(f.Data)
	}
	for _, f := range b.M.DerivedFields {
		b.FT.FFT(f.Data)
	}
	t := sym.Float("t", 0, 10)
	symmetric("explicit", b.D, b.M.GetRHS(0, b.FT.Freq, t))
	symmetric("implicit", b.D, b.M.GetDenum(0, b.FT.Freq, t))
}

// HDivergence: the terms in divergence form.
func HDivergence() {
	sym.Bound("every term in divergence form, arbitrary real fields and coefficients")
	d := grids([][]int{{2, 3}, {4, 3}, {1, 4}, {2, 2, 3}, {1, 1, 4}, {1, 4, 1}, {1, 3, 1}, {3, 1, 1}, {4, 1, 1}}, []int{3, 4}, []int{4, 4}, []int{2, 4, 2}, []int{3, 2, 3})
	check(mdl.Divergence(mdl.DivKinds[sym.Choose("term", len(mdl.DivKinds)-1)], d))
}

// HOther: the other terms.
func HOther() {
	sym.Bound("sources at any grid node, advection, squared gradient, weighted Laplacian, volume multiplier, penalty, noise, functions, products of powers, pair correlation and ideal mixture without Laplacian, modifiers; arbitrary real fields and coefficients")
	kinds := mdl.OtherKinds
	d := grids([][]int{{2, 3}, {4, 3}, {1, 4}, {2, 2, 3}, {1, 1, 4}, {1, 4, 1}, {1, 3, 1}, {3, 1, 1}, {4, 1, 1}}, []int{3, 4}, []int{4, 4}, []int{2, 4, 2}, []int{3, 2, 3})
	kind := kinds[sym.Choose("term", len(kinds))]
	if kind == "penalty" && ref.Num(d) > 6 {
		return // forks per node
	}
	check(mdl.Other(kind, d))
}

// HElastic: the elastic term.
func HElastic() {
	sym.Bound("elastic term of an isotropic and a cubic body with three misfits, arbitrary real field in [-1,1]")
	d := grids([][]int{{2, 3}, {4, 3}, {1, 4}, {2, 2, 3}, {1, 1, 4}, {1, 4, 1}, {1, 3, 1}, {3, 1, 1}, {4, 1, 1}}, []int{3, 4}, []int{4, 4}, []int{3, 2, 2})
	c := elasticity.Isotropic(3, 0.25)
	if sym.Choose("material", 2) == 1 {
		c = elasticity.FromFlatVoigt([]float64{5, 2, 2, 0, 0, 0, 2, 5, 2, 0, 0, 0, 2, 2, 5, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 3})
	}
	misfit := [][]float64{{0.1, 0, 0, 0, 0.1, 0, 0, 0, 0.1}, {0.1, 0.05, 0, 0.05, -0.2, 0, 0, 0, 0}, {0, 0.1, 0.02, 0.1, 0, 0.03, 0.02, 0.03, 0.1}}[sym.Choose("misfit", 3)]
	b, _ := mdl.Elastic(d, c, mat.NewDense(3, 3, misfit))
	check(b)
}

// HStepper: any right-hand side of a real field gives real fields, with every stepper.
func HStepper() {
	sym.Bound("steppers euler, rk4, implicit euler (prediction and hand-over) and shrinking dimer; one and two fields with new arbitrary conjugate symmetric values at every evaluation, real implicit coefficients, with and without an arbitrary filter; any step size in [0.01,0.5], one and two steps")
	d := grids([][]int{{2, 2}, {1, 3}, {3, 1}, {1, 4}, {2, 1, 2}, {1, 1, 3}}, []int{4, 1}, []int{1, 2, 2}, []int{2, 3})
	nf := 1 + sym.Choose("fields", 2)
	impl := sym.Choose("implicit", 2) == 1
	st := sym.Choose("stepper", 3)
	n := ref.Num(d)
	m := pf.NewModel()
	for i := 0; i < nf; i++ {
		m.AddField(pf.NewField(mdl.Names[i], n, ref.ToC(ref.Real(mdl.Names[i], n, -2, 2))))
	}
	for i := 0; i < nf; i++ {
		ex, im := fmt.Sprintf("EXPL%d", i), fmt.Sprintf("IMPL%d", i)
		m.RegisterExplicitTerm(ex, &mdl.Arb{D: d, Name: ex, Sym: true}, nil)
		eq := "d" + mdl.Names[i] + "/dt = " + ex
		if impl {
			A := make([]complex128, n)
			for k := range A {
				A[k] = complex(sym.Float(fmt.Sprintf("A%d_%d", i, k), -1, 0.5), 0)
				if c := ref.Conj(d, k); c < k {
					A[k] = A[c]
				}
			}
			m.RegisterImplicitTerm(im, &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 { return A[k] }}, nil)
			eq += " + " + im
		}
		m.AddEquation(eq)
	}
	dt := sym.Float("dt", 0.01, 0.5)
	s := pf.NewSolver(&m, d, dt)
	steps := 2
	switch st {
	case 1:
		s.SetStepper("rk4")
	case 2:
		steps = 1
		if n > 3 && impl || n > 3 && nf > 1 {
			return
		}
		sdd := pf.NewSDD(d, &m)
		sdd.Dt = dt
		o := make([]float64, nf*n)
		o[0], o[len(o)-1] = 0.6, 0.8
		sdd.SetInitialOrientation(o)
		s.Stepper = &sdd
	}
	if st < 2 && sym.Choose("filter", 2) == 1 {
		s.Stepper.SetFilter(&mdl.Filt{A: sym.Float("fa", -1, 1), B: sym.Float("fb", -1, 1)})
	}
	for q := 0; q < steps; q++ {
		s.Propagate(1)
		for i := range m.Fields {
			for k := range m.Fields[i].Data {
				sym.Close("imaginary", imag(m.Fields[i].Data[k]), 0, 1e-6)
			}
		}
	}
}

// HStart: the implicit stepper hands real fields on.
func HStart() {
	sym.Bound("implicit euler without a solver iteration")
	d := grids([][]int{{2, 2}, {1, 3}, {3, 1}})
	n := ref.Num(d)
	b := mdl.Fields(d, []string{"conc"}, 2)
	b.M.RegisterExplicitTerm("EXPL", &mdl.Arb{D: d, Name: "EXPL", Sym: true}, nil)
	b.M.AddEquation("dconc/dt = EXPL")
	b.M.Init()
	ie := &pf.ImplicitEuler{Dt: sym.Float("dt", 0.01, 0.5), FT: pfutil.NewFFTW(d)}
	s := pf.DefaultNonLinSolver()
	s.Maxiter = -1
	ie.NonlinSolver = &s
	ie.Step(&b.M)
	for k := 0; k < n; k++ {
		sym.Close("imaginary", imag(b.M.Fields[0].Data[k]), 0, 0)
	}
}
