package p09

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gononlin/nonlin"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/mdl"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
	"gonum.org/v1/exp/linsolve"
	"gonum.org/v1/gonum/mat"
)

const tol = 1e-6

// probe is a linear solver that looks at the problem it is handed and gives up.
type probe struct {
	v   []float64
	res []float64
	jv  []float64
}

func (p *probe) Init(x, residual *mat.VecDense) {
	p.res = make([]float64, residual.Len())
	for i := range p.res {
		p.res[i] = residual.AtVec(i)
	}
}

func (p *probe) Iterate(ctx *linsolve.Context) (linsolve.Operation, error) {
	if p.v == nil {
		panic("done")
	}
	if p.jv == nil {
		p.jv = make([]float64, 0)
		for i := range p.v {
			ctx.Src.SetVec(i, p.v[i])
		}
		return linsolve.MulVec, nil
	}
	for i := range p.v {
		p.jv = append(p.jv, ctx.Dst.AtVec(i))
	}
	panic("done")
}

type sys struct {
	d    []int
	n    int
	m    pf.Model
	a    [][]float64 // implicit coefficient per field and mode
	c    [][]float64
	quad float64
	dt   float64
	tc   float64 // slope in time of the explicit part
	t0   float64 // time of the start of the step
	tiny bool    // fixed implicit coefficients close to zero
}

// mode selects the implicit coefficients: 0 none, 1 damping, 2 growth, 3 and above fixed ones close to zero (and a fixed step)
func build(d []int, nf, mode int, quad bool) *sys {
	s := &sys{d: d, n: ref.Num(d), m: pf.NewModel()}
	for i := 0; i < nf; i++ {
		s.m.AddField(pf.NewField(mdl.Names[i], s.n, ref.ToC(ref.Real(mdl.Names[i], s.n, -2, 2))))
	}
	if quad {
		s.quad = sym.Float("q", -2, 2)
		s.m.AddScalar(pf.NewScalar("qq", complex(s.quad, 0)))
	}
	for i := 0; i < nf; i++ {
		i := i
		s.a = append(s.a, make([]float64, s.n))
		s.c = append(s.c, make([]float64, nf))
		for j := range s.c[i] {
			s.c[i][j] = sym.Float(fmt.Sprintf("C%d%d", i, j), -2, 2)
		}
		if mode > 0 {
			for k := range s.a[i] {
				p := ref.Conj(d, k)
				if p < k {
					s.a[i][k] = s.a[i][p]
				} else if mode > 2 {
					s.a[i][k] = []float64{-0.004, 0.006, 1e-6}[mode-3] * float64(1+k)
				} else if mode == 1 {
					s.a[i][k] = sym.Float(fmt.Sprintf("A%d_%d", i, k), -2, -0.1)
				} else {
					s.a[i][k] = sym.Float(fmt.Sprintf("A%d_%d", i, k), 0.1, 0.5)
				}
			}
		}
		ex, im := fmt.Sprintf("EXPL%d", i), fmt.Sprintf("IMPL%d", i)
		s.m.RegisterExplicitTerm(ex, &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 {
			v := complex(0, 0)
			for j := range s.c[i] {
				v += complex(s.c[i][j], 0) * b[mdl.Names[j]].Get(k)
			}
			v += complex(s.tc*t, 0)
			return v
		}}, nil)
		eq := "d" + mdl.Names[i] + "/dt = " + ex
		if mode > 0 {
			s.m.RegisterImplicitTerm(im, &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 {
				return complex(s.a[i][k], 0)
			}}, nil)
			eq += " + " + im
		}
		if quad {
			eq += " + qq*" + mdl.Names[0] + "*" + mdl.Names[nf-1]
		}
		s.m.AddEquation(eq)
	}
	s.m.Init()
	if mode > 2 {
		s.dt, s.tiny = 0.1, true
	} else {
		s.dt = sym.Float("dt", 0.01, 0.1)
	}
	return s
}

func (s *sys) state() [][]complex128 {
	out := make([][]complex128, len(s.m.Fields))
	for i := range out {
		out[i] = ref.CopyC(s.m.Fields[i].Data)
	}
	return out
}

// hat transforms the fields
func (s *sys) hat(x [][]complex128) [][]complex128 {
	out := make([][]complex128, len(x))
	for i := range x {
		out[i] = ref.DFT(s.d, x[i], -1)
	}
	return out
}

// nl is the transformed explicit part at the real space state x
func (s *sys) nl(x [][]complex128) [][]complex128 {
	h := s.hat(x)
	var q []complex128
	if s.quad != 0 {
		p := make([]complex128, s.n)
		for k := range p {
			p[k] = complex(s.quad, 0) * x[0][k] * x[len(x)-1][k]
		}
		q = ref.DFT(s.d, p, -1)
	}
	out := make([][]complex128, len(x))
	for i := range x {
		out[i] = make([]complex128, s.n)
		for k := range out[i] {
			for j := range x {
				out[i][k] += complex(s.c[i][j], 0) * h[j][k]
			}
			if q != nil {
				out[i][k] += q[k]
			}
		}
	}
	return out
}

// residual of the exponential integrator times A^2, in Fourier space
func (s *sys) residual(y0, x [][]complex128) [][]complex128 {
	h := s.dt
	hy, hx, ny, nx := s.hat(y0), s.hat(x), s.nl(y0), s.nl(x)
	out := make([][]complex128, len(x))
	for i := range x {
		out[i] = make([]complex128, s.n)
		for k := range out[i] {
			a := s.a[i][k]
			if a == 0 {
				out[i][k] = hx[i][k] - hy[i][k] - complex(h/2, 0)*(ny[i][k]+nx[i][k])
				continue
			}
			f := math.Exp(a * h)
			if s.tiny {
				e := math.Expm1(a * h)
				out[i][k] = hx[i][k] - hy[i][k]*complex(f, 0) - complex(e/a, 0)*ny[i][k] - complex((e-a*h)/(a*a*h), 0)*(nx[i][k]-ny[i][k])
				continue
			}
			b := (nx[i][k] - ny[i][k]) * complex(1/h, 0)
			out[i][k] = complex(a*a, 0)*(hx[i][k]-hy[i][k]*complex(f, 0)) - complex(a*(f-1), 0)*ny[i][k] - complex(f-a*h-1, 0)*b
		}
	}
	return out
}

func (s *sys) pred(y0 [][]complex128) [][]complex128 {
	hy, ny := s.hat(y0), s.nl(y0)
	if s.tc != 0 {
		for i := range ny {
			for k := range ny[i] {
				ny[i][k] += complex(s.tc*s.t0, 0)
			}
		}
	}
	out := make([][]complex128, len(y0))
	for i := range y0 {
		z := make([]complex128, s.n)
		for k := range z {
			z[k] = (hy[i][k] + complex(s.dt, 0)*ny[i][k]) / complex(1-s.dt*s.a[i][k], 0)
		}
		out[i] = ref.IDFT(s.d, z)
	}
	return out
}

func (s *sys) cmp(label string, got []float64, want [][]complex128) {
	for i := range want {
		g := ref.DFT(s.d, ref.ToC(got[i*s.n:(i+1)*s.n]), -1)
		for k := range g {
			a := s.a[i][k]
			if a != 0 && !s.tiny {
				g[k] *= complex(a*a, 0)
			}
			if ref.Conj(s.d, k) == k {
				sym.Close(label, real(g[k]), real(want[i][k]), tol)
				continue
			}
			sym.CloseC(label, g[k], want[i][k], tol)
		}
	}
}

func HResidual() {
	sym.Bound("residual handed to the non-linear solver at the semi-implicit prediction; one and two coupled fields, arbitrary real fields, coefficients, implicit coefficients zero, in [-2,-0.1] or in [0.1,0.5] per mode, quadratic part, dt in [0.01,0.1], or dt 0.1 and coefficients of about -0.004, 0.006 and 1e-6 without the quadratic part; grids 1x2, 1x3, 2x2 (2x2 not with quadratic and implicit parts together)")
	sym.Assumption("the prediction does not already solve the equation below the linear solver's tolerance")
	d := ref.Grids("grid", [][]int{{1, 2}, {3, 1}, {2, 2}})
	nf := 1 + sym.Choose("fields", 2)
	mode := sym.Choose("implicit", 6)
	quad := sym.Choose("quad", 2) == 1
	if quad && mode > 0 && (ref.Num(d) == 4 || mode > 2) {
		return
	}
	s := build(d, nf, mode, quad)
	y0 := s.state()
	p := &probe{}
	ie := &pf.ImplicitEuler{Dt: s.dt, FT: pfutil.NewFFTW(d), CurrentStep: 2 * sym.Choose("start", 2)}
	ie.NonlinSolver = &nonlin.NewtonKrylov{Stencil: 2, StepSize: 1, Maxiter: 1, InnerMethod: p, InnerSettings: &linsolve.Settings{Tolerance: 1e-200}}
	sym.Panics(func() { ie.Step(&s.m) })
	if p.res == nil {
		return // residual exactly zero
	}
	want := s.residual(y0, s.pred(y0))
	for i := range p.res {
		p.res[i] = -p.res[i]
	}
	s.cmp("residual", p.res, want)
}

func HLinearisation() {
	sym.Bound("central difference of the residual along an arbitrary direction; one and two coupled fields, linear and quadratic explicit parts, grids 1x2, 1x3, 2x2, dt in [0.01,0.1]")
	d := ref.Grids("grid", [][]int{{1, 2}, {3, 1}, {2, 2}})
	nf := 1 + sym.Choose("fields", 2)
	mode := sym.Choose("implicit", 3)
	quad := sym.Choose("quad", 2) == 1
	if quad && mode > 0 && ref.Num(d) == 4 {
		return
	}
	s := build(d, nf, mode, quad)
	y0 := s.state()
	p := &probe{v: ref.Real("v", nf*s.n, -2, 2)}
	ie := &pf.ImplicitEuler{Dt: s.dt, FT: pfutil.NewFFTW(d)}
	ie.NonlinSolver = &nonlin.NewtonKrylov{Stencil: 2, StepSize: 1, Maxiter: 1, InnerMethod: p, InnerSettings: &linsolve.Settings{Tolerance: 1e-200}}
	sym.Panics(func() { ie.Step(&s.m) })
	if p.res == nil {
		return
	}
	x := s.pred(y0)
	shift := func(sg float64) [][]complex128 {
		out := make([][]complex128, nf)
		for i := range out {
			out[i] = make([]complex128, s.n)
			for k := range out[i] {
				out[i][k] = x[i][k] + complex(sg*p.v[i*s.n+k], 0)
			}
		}
		return out
	}
	fp, fm := s.residual(y0, shift(1)), s.residual(y0, shift(-1))
	for i := range fp {
		for k := range fp[i] {
			fp[i][k] = (fp[i][k] - fm[i][k]) * 0.5
		}
	}
	s.cmp("jacobian", p.jv, fp)
}

func HStart() {
	sym.Bound("without a solver iteration the fields are the semi-implicit Euler prediction, real, and the clock advances by one step; one and two fields, linear and quadratic explicit parts and one proportional to the time; grids 1x2, 1x3, 2x2 (2x2 not with quadratic and implicit parts together)")
	d := ref.Grids("grid", [][]int{{1, 2}, {3, 1}, {2, 2}})
	nf := 1 + sym.Choose("fields", 2)
	mode := sym.Choose("implicit", 3)
	quad := sym.Choose("quad", 2) == 1
	s := build(d, nf, mode, quad)
	c := 2 * sym.Choose("start", 2)
	if sym.Choose("time", 2) == 1 {
		s.tc = sym.Float("tc", 0.5, 2)
		s.t0 = float64(c) * s.dt
	}
	y0 := s.state()
	ie := &pf.ImplicitEuler{Dt: s.dt, FT: pfutil.NewFFTW(d), CurrentStep: c}
	ie.NonlinSolver = &nonlin.NewtonKrylov{Stencil: 2, StepSize: 1, Maxiter: -1}
	sym.Panics(func() { ie.Step(&s.m) })
	want := s.pred(y0)
	for i := range want {
		ref.CloseAll("prediction", s.m.Fields[i].Data, want[i], tol)
	}
	sym.EqInt("step", ie.CurrentStep, c+1)
	sym.Close("clock", ie.GetTime(), float64(c+1)*s.dt, 1e-9)
}

func HTime() {
	sym.Bound("explicit part with a part proportional to the time, start step 0 and 2, one field on 1x2, no implicit part, dt in [0.01,0.1]: the residual takes the old explicit part at the time of the start of the step (the new one there or one step later)")
	d := []int{1, 2}
	s := build(d, 1, 0, false)
	s.tc = sym.Float("tc", 0.5, 2)
	c := 2 * sym.Choose("start", 2)
	s.t0 = float64(c) * s.dt
	y0 := s.state()
	p := &probe{}
	ie := &pf.ImplicitEuler{Dt: s.dt, FT: pfutil.NewFFTW(d), CurrentStep: c}
	ie.NonlinSolver = &nonlin.NewtonKrylov{Stencil: 2, StepSize: 1, Maxiter: 1, InnerMethod: p, InnerSettings: &linsolve.Settings{Tolerance: 1e-200}}
	sym.Panics(func() { ie.Step(&s.m) })
	if p.res == nil {
		return
	}
	x := s.pred(y0)
	want := s.residual(y0, x)
	for i := range p.res {
		p.res[i] = -p.res[i]
	}
	g := ref.DFT(d, ref.ToC(p.res), -1)
	for k := range g {
		// the parts in time: half of old and new each
		old := real(want[0][k]) - s.dt*s.tc*s.t0
		diff := real(g[k]) - old
		late := diff + s.dt*s.dt*s.tc/2
		sym.Assert("residual", diff > -tol && diff < tol || late > -tol && late < tol)
	}
}

func HClock() {
	sym.Bound("the clock after up to 10^12 steps, any dt in [1e-6,100]")
	n := sym.Int("steps", 0, 1000000000000)
	dt := sym.Float("dt", 1e-6, 100)
	ie := pf.ImplicitEuler{Dt: dt, CurrentStep: n}
	sym.Close("clock", ie.GetTime()/dt, float64(n), 1e-3)
}
