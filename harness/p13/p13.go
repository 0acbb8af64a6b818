// Package p13 checks that terms in divergence form conserve the total of the field.
package p13

import (
	"fmt"

	"github.com/davidkleiven/gononlin/nonlin"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/mdl"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
	"gonum.org/v1/exp/linsolve"
	"gonum.org/v1/gonum/mat"
)

const tol = 1e-7

func grids(list [][]int, more ...[]int) []int {
	if sym.Thorough() {
		list = append(list, more...)
	}
	sym.Bound("grids " + fmt.Sprint(list))
	return ref.Grids("grid", list)
}

// HMean: the mean amplitude of the right-hand side and of the implicit part is zero for any state.
func HMean() {
	sym.Bound("every term in divergence form; arbitrary real fields and coefficients")
	d := grids([][]int{{2, 3}, {4, 2}, {3, 1}, {1, 4}, {2, 2, 3}, {1, 3, 1}, {1, 1, 4}}, []int{3, 3}, []int{4, 3}, []int{2, 4, 2}, []int{3, 2, 3})
	kind := mdl.DivKinds[sym.Choose("term", len(mdl.DivKinds))]
	b := mdl.Divergence(kind, d)
	b.M.Init()
	b.M.SyncDerivedFields()
	for _, f := range b.M.Fields {
		b.FT.FFT(f.Data)
	}
	for _, f := range b.M.DerivedFields {
		b.FT.FFT(f.Data)
	}
	t := sym.Float("t", 0, 10)
	for q := 0; q < 2; q++ { // evaluations do not disturb each other
		sym.CloseC("mean.explicit", b.M.GetRHS(0, b.FT.Freq, t)[0], 0, tol)
		sym.CloseC("mean.implicit", b.M.GetDenum(0, b.FT.Freq, t)[0], 0, tol)
	}
}

// HTerms: one step of the solver with the actual terms.
func HTerms() {
	sym.Bound("one and two semi-implicit Euler steps of the solver with every term in divergence form; any step size in [0.0005,0.004]")
	d := grids([][]int{{2, 3}, {3, 1}, {1, 4}, {2, 2, 1}, {1, 1, 3}}, []int{4, 2}, []int{3, 3}, []int{2, 2, 2})
	kind := mdl.DivKinds[sym.Choose("term", len(mdl.DivKinds))]
	b := mdl.Divergence(kind, d)
	s := pf.NewSolver(&b.M, d, sym.Float("dt", 0.0005, 0.004))
	n := 1
	if kind == "textimpl" || kind == "pair" || kind == "noise" {
		n = 2
	}
	want := mdl.Sum(ref.ToC(b.Init[0]))
	for q := 0; q < n; q++ {
		s.Propagate(1)
		sym.CloseC("total", mdl.Sum(b.M.Fields[0].Data), want, tol)
	}
}

// probe is a linear solver that looks at the problem it is handed and gives up.
type probe struct {
	v, res, jv []float64
}

func (p *probe) Init(x, residual *mat.VecDense) {
	p.res = make([]float64, residual.Len())
	for i := range p.res {
		p.res[i] = residual.AtVec(i)
	}
}

func (p *probe) Iterate(ctx *linsolve.Context) (linsolve.Operation, error) {
	if p.jv == nil {
		p.jv = make([]float64, 0)
		for i := range p.v {
			ctx.Src.SetVec(i, p.v[i])
		}
		return linsolve.MulVec, nil
	}
	for i := range p.v {
		p.jv = append(p.jv, ctx.Dst.AtVec(i))
	}
	panic("done")
}

// HStepper: any right-hand side without a mean amplitude keeps the total, with every stepper.
func HStepper() {
	sym.Bound("steppers euler, rk4 and implicit euler; one and two fields whose right-hand side takes new arbitrary values (zero at the mean amplitude) at every evaluation, with and without an implicit part; any step size in [0.01,0.5], one and two steps")
	d := grids([][]int{{2, 2}, {1, 3}, {3, 1}, {1, 1, 3}}, []int{4, 1}, []int{1, 2, 2}, []int{2, 3})
	nf := 1 + sym.Choose("fields", 2)
	impl := sym.Choose("implicit", 2) == 1
	st := sym.Choose("stepper", 3)
	m := pf.NewModel()
	n := ref.Num(d)
	var init []complex128
	for i := 0; i < nf; i++ {
		x := ref.Real(mdl.Names[i], n, -2, 2)
		m.AddField(pf.NewField(mdl.Names[i], n, ref.ToC(x)))
		init = append(init, mdl.Sum(ref.ToC(x)))
	}
	for i := 0; i < nf; i++ {
		ex, im := fmt.Sprintf("EXPL%d", i), fmt.Sprintf("IMPL%d", i)
		m.RegisterExplicitTerm(ex, &mdl.Arb{D: d, Name: ex, Zero: true, Sym: true}, nil)
		eq := "d" + mdl.Names[i] + "/dt = " + ex
		if impl {
			A := make([]complex128, n)
			for k := 1; k < n; k++ {
				A[k] = complex(sym.Float(fmt.Sprintf("A%d_%d", i, k), -1, 0.5), 0)
				if c := ref.Conj(d, k); c < k {
					A[k] = A[c]
				}
			}
			m.RegisterImplicitTerm(im, &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 { return A[k] }}, nil)
			eq += " + " + im
		}
		m.AddEquation(eq)
	}
	dt := sym.Float("dt", 0.01, 0.5)
	s := pf.NewSolver(&m, d, dt)
	switch st {
	case 1:
		s.SetStepper("rk4")
	case 2:
		if impl && n > 3 {
			return
		}
		p := &probe{v: ref.Real("v", nf*n, -2, 2)}
		ie := &pf.ImplicitEuler{Dt: dt, FT: pfutil.NewFFTW(d)}
		ie.NonlinSolver = &nonlin.NewtonKrylov{Stencil: 2, StepSize: 1, Maxiter: 1, InnerMethod: p, InnerSettings: &linsolve.Settings{Tolerance: 1e-200}}
		sym.Panics(func() { ie.Step(&m) })
		if p.res == nil {
			return
		}
		// the residual at x has the total of x minus the initial total: zero at the prediction, and changing with x alone
		for i := 0; i < nf; i++ {
			r, j, v := 0.0, 0.0, 0.0
			for k := 0; k < n; k++ {
				r += p.res[i*n+k]
				j += p.jv[i*n+k]
				v += p.v[i*n+k]
			}
			sym.Close("residual", r, 0, 1e-6)
			sym.Close("residual.change", j, v, 1e-6)
		}
		return
	}
	for q := 0; q < 2; q++ {
		s.Propagate(1)
		for i := range init {
			sym.CloseC("total", mdl.Sum(m.Fields[i].Data), init[i], 1e-6)
		}
	}
}
