package p10

import (
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/zverif/mdl"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

const tol = 1e-6

func HLength() {
	sym.Bound("initial length in [0.1,10], minimum in [0,5], time constant in [0.1,10], times in [0,20], any target length in [0.1,10]")
	m := pf.NewModel()
	m.AddField(pf.NewField("conc", 2, nil))
	s := pf.NewSDD([]int{1, 2}, &m)
	l0 := sym.Float("l0", 0.1, 10)
	tau := sym.Float("tau", 0.1, 10)
	s.TimeConstants.DimerLength = tau
	s.InitDimerLength = l0
	t := sym.Float("t", 0, 20)
	want := l0 * math.Exp(-t/tau)
	if sym.Choose("min", 2) == 1 {
		mn := sym.Float("min_", 0, 5)
		s.MinDimerLength = mn
		got := s.DimerLength(t)
		sym.Assert("not below the minimum", got >= mn)
		if want > mn {
			sym.Close("length", got, want, tol)
		} else {
			sym.Close("length at minimum", got, mn, tol)
		}
		return
	}
	sym.Close("length", s.DimerLength(t), want, tol)
	sym.Close("start", s.DimerLength(0), l0, tol)
	l := sym.Float("l", 0.1, 10)
	sym.Close("time for a length", s.RequiredDimerLengthTime(l), tau*math.Log(l0/l), tol)
	sym.Close("length at that time", s.DimerLength(s.RequiredDimerLengthTime(l)), l, tol)
	sym.Close("clock", func() float64 { s.Dt = t; s.CurrentStep = 3; return s.GetTime() }(), 3*t, tol)
}

func HInit() {
	sym.Bound("arbitrary pair of states or orientation vector, one and two fields on 1x2: the orientation is the unit vector from the first to the second, the dimer length their distance")
	nf := 1 + sym.Choose("fields", 2)
	m := pf.NewModel()
	var a, b []pf.Field
	o := make([]float64, 0)
	for i := 0; i < nf; i++ {
		m.AddField(pf.NewField(mdl.Names[i], 2, nil))
		x, y := ref.Real("a"+mdl.Names[i], 2, -2, 2), ref.Real("b"+mdl.Names[i], 2, -2, 2)
		a = append(a, pf.NewField(mdl.Names[i], 2, ref.ToC(x)))
		b = append(b, pf.NewField(mdl.Names[i], 2, ref.ToC(y)))
		for k := range x {
			o = append(o, y[k]-x[k])
		}
	}
	q := 0.0
	for _, x := range o {
		q += x * x
	}
	sym.Assume(q > 1e-2)
	s := pf.NewSDD([]int{1, 2}, &m)
	if sym.Choose("how", 2) == 0 {
		s.Init(a, b)
	} else {
		s.SetInitialOrientation(o)
	}
	sym.Close("length", s.InitDimerLength*s.InitDimerLength, q, tol)
	sym.Assert("length positive", s.InitDimerLength >= 0)
	v := orient(&s, nf, 2)
	for i := range v {
		sym.Close("direction", v[i]*s.InitDimerLength, o[i], tol)
	}
}

// orient reads the orientation through the shift of zero fields.
func orient(s *pf.SDD, nf, n int) []float64 {
	f := make([]pf.Field, nf)
	for i := range f {
		f[i] = pf.NewField(mdl.Names[i], n, nil)
	}
	s.ShiftFieldsAlongDimer(f, 1)
	out := make([]float64, 0, nf*n)
	for i := range f {
		for _, x := range f[i].Data {
			out = append(out, real(x))
			sym.Close("orientation real", imag(x), 0, tol)
		}
	}
	return out
}

// unit vectors per length
var units = map[int][][]float64{
	2: {{0.6, 0.8}, {-0.8, 0.6}},
	3: {{2. / 3, -1. / 3, 2. / 3}, {0.48, 0.6, 0.64}},
	4: {{0.5, -0.5, 0.5, 0.5}, {0.1, 0.7, -0.1, 0.7}},
	6: {{0.5, 0.1, -0.5, 0.4, 0.5, 0.282842712474619}, {1. / 3, -2. / 3, 0, 0, 2. / 3, 0}},
}

func stepHarness(d []int, nf int, v []float64, implicit, quad bool, twice bool) {
	n := ref.Num(d)
	m := pf.NewModel()
	c := make([][]float64, nf)
	a := make([][]float64, nf)
	q := 0.0
	if quad {
		q = sym.Float("q", -0.25, 0.25)
		m.AddScalar(pf.NewScalar("qq", complex(q, 0)))
	}
	for i := 0; i < nf; i++ {
		m.AddField(pf.NewField(mdl.Names[i], n, ref.ToC(ref.Real(mdl.Names[i], n, -1, 1))))
	}
	tc := sym.Float("T", -1, 1)
	for i := 0; i < nf; i++ {
		i := i
		c[i] = make([]float64, nf)
		for j := range c[i] {
			c[i][j] = sym.Float(fmt.Sprintf("C%d%d", i, j), -1, 1)
		}
		a[i] = make([]float64, n)
		ex, im := fmt.Sprintf("EXPL%d", i), fmt.Sprintf("IMPL%d", i)
		m.RegisterExplicitTerm(ex, &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 {
			r := complex(0, 0)
			for j := range c[i] {
				r += complex(c[i][j], 0) * b[mdl.Names[j]].Get(k)
			}
			if k == 0 {
				r += complex(tc*t, 0)
			}
			return r
		}}, nil)
		eq := "d" + mdl.Names[i] + "/dt = " + ex
		if implicit {
			for k := range a[i] {
				p := ref.Conj(d, k)
				if p < k {
					a[i][k] = a[i][p]
				} else {
					a[i][k] = sym.Float(fmt.Sprintf("A%d_%d", i, k), -2, 0.5)
				}
			}
			m.RegisterImplicitTerm(im, &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 {
				return complex(a[i][k], 0)
			}}, nil)
			eq += " + " + im
		}
		if quad {
			eq += " + qq*" + mdl.Names[0] + "*" + mdl.Names[nf-1]
		}
		m.AddEquation(eq)
	}
	m.Init()
	s := pf.NewSDD(d, &m)
	dt := sym.Float("dt", 0.01, 0.1)
	s.Dt = dt
	s.Alpha = sym.Float("alpha", 0, 1)
	to := sym.Float("tau", 0.5, 2)
	tl := sym.Float("taul", 0.5, 2)
	s.TimeConstants = pf.SDDTimeConstants{Orientation: to, DimerLength: tl}
	s.SetInitialOrientation(v)
	l0 := sym.Float("l0", 0.5, 2)
	s.InitDimerLength = l0
	s.CurrentStep = sym.Choose("start", 2)
	l := l0
	t := 0.0
	if s.CurrentStep == 1 {
		l = l0 * math.Exp(-dt/tl)
		t = dt
	}
	x := make([]float64, 0, nf*n)
	for i := range m.Fields {
		for _, z := range m.Fields[i].Data {
			x = append(x, real(z))
		}
	}
	nl := func(x []float64) []float64 {
		out := make([]float64, nf*n)
		for i := 0; i < nf; i++ {
			for k := 0; k < n; k++ {
				r := tc * t / float64(n)
				for j := 0; j < nf; j++ {
					r += c[i][j] * x[j*n+k]
				}
				if quad {
					r += q * x[k] * x[(nf-1)*n+k]
				}
				out[i*n+k] = r
			}
		}
		return out
	}
	lin := func(x []float64) []float64 {
		out := make([]float64, nf*n)
		if !implicit {
			return out
		}
		for i := 0; i < nf; i++ {
			h := ref.DFT(d, ref.ToC(x[i*n:(i+1)*n]), -1)
			for k := range h {
				h[k] *= complex(a[i][k], 0)
			}
			h = ref.IDFT(d, h)
			for k := range h {
				out[i*n+k] = real(h[k])
			}
		}
		return out
	}
	dot := func(x, y []float64) float64 {
		r := 0.0
		for i := range x {
			r += x[i] * y[i]
		}
		return r
	}
	ends := make([][]float64, 2)
	for e := range ends {
		y := make([]float64, nf*n)
		for i := range y {
			y[i] = x[i] + (float64(e)-0.5)*l*v[i]
		}
		ends[e] = nl(y)
	}
	before := sym.Float("norm", 0, 10)
	s.Monitor.FieldNorm = before
	s.Step(&m)
	sym.Close("field norm", s.Monitor.FieldNorm, dot(x, x), tol)
	sym.Close("change of the field norm", s.Monitor.FieldNormChange, before-dot(x, x), tol)
	w := make([]float64, nf*n)
	for i := range w {
		w[i] = s.Alpha*ends[0][i] + (1-s.Alpha)*ends[1][i]
	}
	vw := dot(v, w)
	xn := make([]float64, 0, nf*n)
	for i := range m.Fields {
		for _, z := range m.Fields[i].Data {
			xn = append(xn, real(z))
			sym.Close("real", imag(z), 0, tol)
		}
	}
	lx := lin(xn)
	vl := dot(v, lx)
	for i := range xn {
		sym.Close("centre", xn[i]-dt*(lx[i]-2*v[i]*vl), x[i]+dt*(w[i]-2*v[i]*vw), tol)
	}
	// orientation
	g := make([]float64, nf*n)
	lv := lin(v)
	for i := range g {
		g[i] = ends[1][i] - ends[0][i] + l*lv[i]
	}
	vg := dot(v, g)
	u := make([]float64, nf*n)
	for i := range u {
		u[i] = v[i] + dt*(g[i]-v[i]*vg)/(l*to)
	}
	vn := orient(&s, nf, n)
	sym.Close("unit length", dot(vn, vn), 1, tol)
	// parallel and in the same direction
	for i := range u {
		for j := 0; j < i; j++ {
			sym.Close("orientation", vn[i]*u[j], vn[j]*u[i], tol)
		}
	}
	sym.Assert("orientation sense", dot(vn, v) > 0)
	sym.EqInt("steps", s.CurrentStep, sym.Concrete(s.CurrentStep))
	sym.Close("clock", s.GetTime(), t+dt, 1e-9)
}

func HExplicit() {
	sym.Bound("one step, explicit linear coupling and quadratic part with arbitrary coefficients, one and two fields, listed unit orientations, any dt in [0.01,0.1], alpha in [0,1], time constants in [0.5,2], length in [0.5,2], start step 0 and 1; grids 1x2, 3x1, 2x2 (2x2 with one field)")
	d := ref.Grids("grid", [][]int{{1, 2}, {3, 1}, {2, 2}})
	nf := 1
	if ref.Num(d) < 4 {
		nf += sym.Choose("fields", 2)
	}
	l := units[nf*ref.Num(d)]
	v := l[sym.Choose("orientation", len(l))]
	stepHarness(d, nf, norm(v), false, sym.Choose("quad", 2) == 1, false)
}

func HImplicit() {
	sym.Bound("one step with arbitrary implicit coefficients in [-2,0.5] per mode; one field on 1x2, 3x1, 2x2, two fields on 1x2 (thorough: also 3x1)")
	nk := 4
	if sym.Thorough() {
		nk = 5
	}
	k := sym.Choose("case", nk)
	d := [][]int{{1, 2}, {3, 1}, {1, 2}, {2, 2}, {3, 1}}[k]
	nf := []int{1, 1, 2, 1, 2}[k]
	l := units[nf*ref.Num(d)]
	v := l[sym.Choose("orientation", len(l))]
	stepHarness(d, nf, norm(v), true, false, false)
}

func norm(v []float64) []float64 {
	q := 0.0
	for _, x := range v {
		q += x * x
	}
	q = math.Sqrt(q)
	out := make([]float64, len(v))
	for i := range v {
		out[i] = v[i] / q
	}
	return out
}

// HMonitor: the quantities reported for a step, their log, and the orientation written to a file.
func HMonitor() {
	sym.Bound("one explicit step of one or two fields on 1x2 and 2x1, with any value at one node of each, and fixed coefficients and step sizes; the listed orientations and their opposites")
	d := [][]int{{1, 2}, {2, 1}}[sym.Choose("case", 2)]
	n := ref.Num(d)
	nf := 1
	if sym.Bool("two fields") {
		nf = 2
	}
	c := []float64{0.5, -0.25, 0.125, 1}
	a := sym.Float("a", -1, 1)
	m := pf.NewModel()
	for i := 0; i < nf; i++ {
		i := i
		name := mdl.Names[i]
		x := []complex128{complex(0.25-float64(i), 0), 0.5}
		x[sym.Choose("node", 2)] += complex(a*float64(1+i), 0)
		m.AddField(pf.NewField(name, n, x))
		m.RegisterExplicitTerm("EXPL"+name, &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 {
			r := complex(0, 0)
			for j := 0; j < nf; j++ {
				r += complex(c[2*i+j]+float64(k)/8, 0) * b[mdl.Names[j]].Get(k)
			}
			return r
		}}, nil)
		m.AddEquation("d" + name + "/dt = EXPL" + name)
	}
	m.Init()
	s := pf.NewSDD(d, &m)
	s.Dt, s.Alpha = 0.125, 0.25
	v := norm(units[nf*n][sym.Choose("orientation", len(units[nf*n]))])
	if sym.Bool("opposite") {
		for i := range v {
			v[i] = -v[i]
		}
	}
	s.SetInitialOrientation(v)
	s.InitDimerLength = 0.5
	s.TimeConstants = pf.SDDTimeConstants{Orientation: 2, DimerLength: 1}
	name := sym.TempDir() + "/log.csv"
	f, err := os.Create(name)
	if err != nil {
		sym.Fail("no file")
	}
	s.Monitor.LogFile = f
	var want [][]float64
	steps := 1
	for q := 0; q < steps; q++ {
		x := values(&m)
		s.Step(&m)
		y := values(&m)
		// rate of change of the centre, in space and per mode
		rms := 0.0
		for i := range x {
			rms += (y[i] - x[i]) / s.Dt * (y[i] - x[i]) / s.Dt
		}
		sym.Close("force", s.Monitor.ForcePowerSpectrum*s.Monitor.ForcePowerSpectrum, rms/float64(nf*n), tol)
		sym.Assert("force positive", s.Monitor.ForcePowerSpectrum >= 0)
		hit := false
		for i := 0; i < nf; i++ {
			r := make([]complex128, n)
			for k := range r {
				r[k] = complex((y[i*n+k]-x[i*n+k])/s.Dt, 0)
			}
			for _, a := range ref.DFT(d, r, -1) {
				a2, m2 := real(a)*real(a)+imag(a)*imag(a), s.Monitor.MaxForce*s.Monitor.MaxForce
				sym.Assert("no larger force", a2 <= m2+1e-6)
				hit = hit || a2 >= m2-1e-6
			}
		}
		sym.Assert("largest force", hit)
		// torque: the difference of the forces at the ends, across the orientation
		g, vg := make([]float64, nf*n), 0.0
		for i := 0; i < nf; i++ {
			h := make([]complex128, n)
			for j := 0; j < nf; j++ {
				w := ref.DFT(d, ref.ToC(v[j*n:(j+1)*n]), -1)
				for k := range h {
					h[k] -= complex((c[2*i+j]+float64(k)/8)*s.InitDimerLength, 0) * w[k]
				}
			}
			for k, z := range ref.IDFT(d, h) {
				g[i*n+k] = real(z)
				vg += real(z) * v[i*n+k]
			}
		}
		top := 0.0
		for k := range g {
			top = math.Max(top, math.Abs(g[k]-vg*v[k]))
		}
		sym.Close("largest torque", s.Monitor.MaxTorque, top, tol)
		want = append(want, []float64{s.Monitor.MaxForce, s.Monitor.MaxTorque, s.Monitor.ForcePowerSpectrum, s.Monitor.FieldNorm, s.Monitor.FieldNormChange})
		s.Monitor.Log(nil, q)
	}
	f.Close()
	b, err := os.ReadFile(name)
	sym.Assert("log", err == nil)
	rows := strings.Split(strings.TrimSpace(string(b)), "\n")
	sym.EqInt("rows of the log", len(rows), steps+1)
	sym.EqStr("header", rows[0], "MaxForce,MaxTorque,ForcePowerSpect,FieldNorm,FieldNormChange")
	for q, r := range rows[1:] {
		w := strings.Split(r, ",")
		sym.EqInt("columns", len(w), 5)
		for k := range w {
			x, err := strconv.ParseFloat(w[k], 64)
			sym.Assert("number", err == nil)
			sym.Close("logged", x, want[q][k], 6e-7)
		}
	}
	// orientation
	now := orient(&s, nf, n)
	fname := sym.TempDir() + "/orientation.csv"
	s.SaveOrientation(fname)
	back := pf.LoadCSV(fname)
	sym.EqInt("orientations", len(back), nf)
	for i := range back {
		sym.EqInt("nodes", len(back[i].Data), n)
		for k := range back[i].Data {
			sym.Close("orientation stored", real(back[i].Data[k]), now[i*n+k], 6e-7)
		}
	}
}

func values(m *pf.Model) []float64 {
	var x []float64
	for i := range m.Fields {
		for _, z := range m.Fields[i].Data {
			x = append(x, real(z))
		}
	}
	return x
}

func HClock() {
	sym.Bound("the clock after up to 10^12 steps, any dt in [1e-6,100]")
	n := sym.Int("steps", 0, 1000000000000)
	dt := sym.Float("dt", 1e-6, 100)
	s := pf.SDD{Dt: dt, CurrentStep: n}
	sym.Close("clock", s.GetTime()/dt, float64(n), 1e-3)
}
