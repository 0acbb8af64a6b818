package p06

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

// fac is one factor of a term: a scalar, a field or a registered function, with a power (0: no power written).
type fac struct {
	name string
	pow  int
}

// term is one signed product, with lap Laplacians in front of factor number at (-1: written as its own factor first).
type term struct {
	sign string
	lap  int
	at   int
	fs   []fac
}

func (t term) text(sp string) string {
	s := ""
	lap := "LAP"
	if t.lap > 1 {
		lap = fmt.Sprintf("LAP^%d", t.lap)
	}
	first := true
	star := func() {
		if !first {
			s += sp + "*" + sp
		}
		first = false
	}
	if t.lap > 0 && t.at < 0 {
		star()
		s += lap
	}
	for i, f := range t.fs {
		star()
		if t.lap > 0 && t.at == i {
			s += lap + " "
		}
		s += f.name
		if f.pow > 0 {
			s += fmt.Sprintf("^%d", f.pow)
		}
	}
	return s
}

func text(field string, ts []term, sp string) string {
	s := "d" + field + "/dt" + sp + "=" + sp
	for i, t := range ts {
		if i > 0 || t.sign == "-" {
			s += sp + t.sign + sp
		}
		s += t.text(sp)
	}
	return s
}

type world struct {
	d       []int
	names   []string
	fields  [][]float64
	scalars map[string]float64
	m       pf.Model
	ft      *pfutil.FFTWWrapper
}

func funcVal(name string, v func(string) float64) float64 {
	switch name {
	case "FUNC":
		return v("conc")*v("conc") - v("eta")
	case "chem_conc":
		return v("eta")*v("conc") + 1
	}
	return 0
}

type cterm struct{ a, b complex128 }

func fill(c complex128) pf.Term {
	return func(freq pf.Frequency, t float64, field []complex128) {
		for k := range field {
			field[k] = c * complex((1+float64(k))*(1+t), 0)
		}
	}
}
func (c *cterm) Construct(bricks map[string]pf.Brick) pf.Term          { return fill(c.a) }
func (c *cterm) ConstructLinear(bricks map[string]pf.Brick) pf.Term    { return fill(c.a) }
func (c *cterm) ConstructNonLinear(bricks map[string]pf.Brick) pf.Term { return fill(c.b) }
func (c *cterm) OnStepFinished(t float64, bricks map[string]pf.Brick)  {}

func build(d []int, names []string, scal []string) *world {
	w := &world{d: d, names: names, scalars: map[string]float64{}, m: pf.NewModel(), ft: pfutil.NewFFTW(d)}
	n := ref.Num(d)
	for _, nm := range names {
		x := ref.Real(nm, n, -2, 2)
		w.fields = append(w.fields, x)
		w.m.AddField(pf.NewField(nm, n, ref.ToC(x)))
	}
	for _, nm := range scal {
		v := sym.Float(nm, -2, 2)
		w.scalars[nm] = v
		w.m.AddScalar(pf.NewScalar(nm, complex(v, 0)))
	}
	return w
}

func (w *world) function(name string) {
	w.m.RegisterFunction(name, func(i int, b map[string]pf.Brick) complex128 {
		return complex(funcVal(name, func(f string) float64 { return real(b[f].Get(i)) }), 0)
	})
}

func (w *world) field(name string) []float64 {
	for i, n := range w.names {
		if n == name {
			return w.fields[i]
		}
	}
	return nil
}

// transform does what a time stepper does before it asks for the right hand side.
func (w *world) transform() {
	w.m.Init()
	for _, f := range w.m.Fields {
		w.ft.FFT(f.Data)
	}
	for _, f := range w.m.DerivedFields {
		w.ft.FFT(f.Data)
	}
}

// value is the transformed product of a term and whether it is linear in the evolved field with a field free coefficient; coef is
// that coefficient per mode.
func (w *world) value(t term, evolved string) (val []complex128, linear bool, coef []complex128) {
	n := ref.Num(w.d)
	c := 1.0
	if t.sign == "-" {
		c = -1
	}
	x := make([]complex128, n)
	for k := range x {
		x[k] = 1
	}
	nf := 0
	pw := 0
	for _, f := range t.fs {
		p := f.pow
		if p == 0 {
			p = 1
		}
		if v, ok := w.scalars[f.name]; ok {
			for q := 0; q < p; q++ {
				c *= v
			}
			continue
		}
		nf++
		if f.name == evolved {
			pw = p
		}
		for k := range x {
			v := 0.0
			if u := w.field(f.name); u != nil {
				v = u[k]
			} else {
				v = funcVal(f.name, func(g string) float64 { return w.field(g)[k] })
			}
			for q := 0; q < p; q++ {
				x[k] *= complex(v, 0)
			}
		}
	}
	val = ref.DFT(w.d, x, -1)
	coef = make([]complex128, n)
	for k := range val {
		l := c
		for q := 0; q < t.lap; q++ {
			l *= -ref.K2(w.d, k)
		}
		val[k] *= complex(l, 0)
		coef[k] = complex(l, 0)
	}
	return val, nf == 1 && pw == 1, coef
}

func (w *world) check(eq int, evolved string, ts []term, implicit bool) {
	n := ref.Num(w.d)
	wantE := make([]complex128, n)
	wantI := make([]complex128, n)
	for _, t := range ts {
		v, lin, c := w.value(t, evolved)
		for k := range v {
			if lin {
				wantI[k] += c[k]
			} else {
				wantE[k] += v[k]
			}
		}
	}
	rhs := w.m.GetRHS(eq, w.ft.Freq, 0.5)
	den := w.m.GetDenum(eq, w.ft.Freq, 0.5)
	if implicit {
		for k := range wantI {
			sym.CloseC("implicit", den[k], wantI[k], 1e-6)
			sym.CloseC("explicit", rhs[k], wantE[k], 1e-5)
		}
		return
	}
	// whichever side the terms are on, the sum is the text
	fh := w.m.Fields[eq].Data
	for k := range wantI {
		sym.CloseC("sum", rhs[k]+den[k]*fh[k], wantE[k]+wantI[k]*fh[k], 1e-5)
	}
}

var single = []term{
	{"+", 0, 0, []fac{{"conc", 0}}},
	{"-", 0, 0, []fac{{"conc", 0}}},
	{"+", 1, 0, []fac{{"conc", 0}}},
	{"-", 2, 0, []fac{{"conc", 0}}},
	{"+", 3, -1, []fac{{"conc", 0}}},
	{"+", 0, 0, []fac{{"m1", 0}, {"conc", 0}}},
	{"-", 0, 0, []fac{{"conc", 0}, {"m1", 2}}},
	{"+", 1, 1, []fac{{"m1", 0}, {"conc", 0}}},
	{"-", 2, 2, []fac{{"m1", 0}, {"gamma", 3}, {"conc", 0}}},
	{"+", 1, -1, []fac{{"m1", 0}, {"gamma", 0}, {"conc", 0}}},
	{"+", 2, 0, []fac{{"conc", 0}, {"gamma", 0}}},
	{"-", 1, 0, []fac{{"m1", 0}, {"conc", 0}}},
	{"+", 0, 0, []fac{{"conc", 2}}},
	{"-", 1, 0, []fac{{"conc", 3}}},
	{"+", 2, 1, []fac{{"m1", 2}, {"conc", 2}}},
	{"+", 0, 0, []fac{{"eta", 0}}},
	{"-", 1, 0, []fac{{"eta", 0}}},
	{"-", 0, 0, []fac{{"gamma", 0}, {"eta", 2}}},
	{"+", 0, 0, []fac{{"conc", 0}, {"eta", 0}}},
	{"-", 0, 0, []fac{{"eta", 0}, {"conc", 0}}},
	{"+", 1, 0, []fac{{"eta", 0}, {"conc", 0}}},
	{"+", 1, 0, []fac{{"conc", 2}, {"eta", 0}}},
	{"-", 2, -1, []fac{{"eta", 2}, {"conc", 0}}},
	{"+", 0, 0, []fac{{"conc", 0}, {"dd", 0}, {"eta", 0}}},
	{"-", 0, 0, []fac{{"m1", 0}, {"conc", 0}, {"dd", 2}, {"eta", 2}, {"gamma", 0}}},
	{"+", 1, 2, []fac{{"dd", 0}, {"m1", 0}, {"eta", 0}, {"conc", 2}}},
	{"+", 0, 0, []fac{{"conc", 0}, {"conc", 0}}},
	{"-", 1, 0, []fac{{"conc", 0}, {"m1", 0}, {"conc", 2}}},
	{"+", 0, 0, []fac{{"FUNC", 0}}},
	{"-", 1, 0, []fac{{"FUNC", 0}}},
	{"+", 2, -1, []fac{{"m1", 0}, {"gamma", 2}, {"FUNC", 0}}},
	{"-", 0, 0, []fac{{"FUNC", 0}, {"dd", 0}}},
	{"+", 2, 1, []fac{{"LAMBDA", 0}, {"conc", 0}}},
	{"-", 2, 1, []fac{{"LAMBDA", 0}, {"eta", 2}}},
	{"+", 0, 0, []fac{{"OVERLAP", 0}, {"conc", 0}}},
	{"+", 0, 0, []fac{{"const", 0}, {"conc", 2}}},
	{"-", 0, 0, []fac{{"q", 0}, {"conc", 0}}},
	{"+", 1, 1, []fac{{"q", 2}, {"eta", 0}}},
}

func HSingle() {
	sym.Bound("every listed single-term equation (38 shapes: sign, scalars with powers, Laplacian powers 0-3 in front of any factor, one or two fields with powers up to 3 in any order, repeated fields, functions) on a 2x3 grid, with and without spaces, for the first and the second of two fields; arbitrary field and scalar values")
	t := single[sym.Choose("shape", len(single))]
	sp := []string{"", " "}[sym.Choose("space", 2)]
	one(t, sp)
}

func one(t term, sp string) {
	w := build([]int{2, 3}, []string{"conc", "eta"}, scalars(t))
	w.function("FUNC")
	w.m.AddEquation(text("conc", []term{t}, sp))
	w.m.AddEquation(text("eta", []term{t}, sp))
	w.transform()
	w.check(0, "conc", []term{t}, true)
	w.check(1, "eta", []term{t}, true)
}

// scalars lists the scalars that occur.
func scalars(ts ...term) []string {
	var out []string
	seen := map[string]bool{"conc": true, "eta": true, "phi": true, "FUNC": true, "conc2": true, "chem_conc": true}
	for _, t := range ts {
		for _, f := range t.fs {
			if !seen[f.name] {
				seen[f.name] = true
				out = append(out, f.name)
			}
		}
	}
	return out
}

func HMany() {
	sym.Bound("equations of two and three terms drawn from the listed shapes (each shape with several partners before and after it), two fields on a 1x3 grid; spaces or none")
	k := len(single)
	a := sym.Choose("first", k)
	sp := []string{"", " "}[sym.Choose("space", 2)]
	ts := []term{single[a], single[(7*a+5)%k]}
	if sym.Choose("three", 2) == 1 {
		ts = append(ts, single[(11*a+13)%k])
	}
	w := build([]int{1, 3}, []string{"conc", "eta"}, scalars(ts...))
	w.function("FUNC")
	w.m.AddEquation(text("conc", ts, sp))
	rev := []term{}
	for i := range ts {
		rev = append(rev, ts[len(ts)-1-i])
	}
	w.m.AddEquation(text("eta", rev, sp))
	w.transform()
	w.check(0, "conc", ts, true)
	w.check(1, "eta", rev, true)
}

func HThree() {
	sym.Bound("three-field products in all six factor orders with scalars between them, 1x2 grid")
	perm := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("order", 6)]
	fs := []fac{{"conc", 2}, {"eta", 0}, {"phi", 3}}
	t := term{sign: "-", lap: sym.Choose("lap", 3), at: sym.Choose("at", 3) - 1}
	put := sym.Choose("scalar", 4)
	for i := 0; i < 3; i++ {
		if put == i {
			t.fs = append(t.fs, fac{"m1", 2})
		}
		t.fs = append(t.fs, fs[perm[i]])
	}
	if put == 3 {
		t.fs = append(t.fs, fac{"zz", 0})
	}
	u := term{"+", 1, 1, []fac{{"g", 0}, {"phi", 0}}}
	w := build([]int{1, 2}, []string{"eta", "phi", "conc"}, append(scalars(t), "g"))
	w.m.AddEquation(text("eta", []term{u, t}, ""))
	w.m.AddEquation(text("phi", []term{t, u}, " "))
	w.m.AddEquation(text("conc", []term{u, u, t}, " "))
	w.transform()
	w.check(0, "eta", []term{u, t}, true)
	w.check(1, "phi", []term{t, u}, true)
	w.check(2, "conc", []term{u, u, t}, true)
}

func HNames() {
	sym.Bound("names that contain one another (conc and conc2, a scalar D_conc, a function chem_conc): the sum of both sides is the text")
	ts := []term{
		{"-", 0, 0, []fac{{"conc2", 0}}},
		{"+", 0, 0, []fac{{"m1", 0}, {"conc2", 2}}},
		{"-", 1, 0, []fac{{"conc2", 0}, {"conc", 0}}},
		{"+", 0, 0, []fac{{"conc2", 2}, {"conc", 3}}},
		{"+", 1, 1, []fac{{"D_conc", 0}, {"conc", 0}}},
		{"-", 0, 0, []fac{{"D_conc", 0}, {"conc2", 0}}},
		{"+", 2, 1, []fac{{"D_conc", 2}, {"conc", 2}}},
		{"-", 1, 0, []fac{{"chem_conc", 0}}},
		{"+", 1, 0, []fac{{"conc", 1}, {"m1", 0}}},
		{"+", 0, 0, []fac{{"D_conc", 0}, {"chem_conc", 0}}},
	}
	a := sym.Choose("first", len(ts))
	use := []term{ts[a], ts[(a+3)%len(ts)]}
	w := build([]int{1, 3}, []string{"conc", "conc2", "eta"}, scalars(use...))
	w.function("chem_conc")
	w.m.AddEquation(text("conc", use, " "))
	w.m.AddEquation(text("conc2", use, ""))
	w.m.AddEquation(text("eta", use, ""))
	w.transform()
	w.check(0, "conc", use, false)
	w.check(1, "conc2", use, false)
	w.check(2, "eta", use, false)
}

func HTerms() {
	sym.Bound("registered explicit, implicit and mixed terms with every sign and Laplacian prefix (none, 1, 2, 4), alone and between other terms; the terms depend on the time, which is arbitrary in [0,4]")
	w := build([]int{2, 2}, []string{"conc"}, []string{"m1"})
	a := complex(sym.Float("a", -2, 2), 0)
	b := complex(sym.Float("b", -2, 2), 0)
	kind := sym.Choose("kind", 3)
	t := &cterm{a, b}
	switch kind {
	case 0:
		w.m.RegisterExplicitTerm("TERM", t, nil)
	case 1:
		w.m.RegisterImplicitTerm("TERM", t, nil)
	case 2:
		w.m.RegisterMixedTerm("TERM", t, nil)
	}
	pn := sym.Choose("prefix", 6)
	p := []string{"", "LAP ", "LAP*", "LAP^2*", "LAP^4 ", "LAP^2 "}[pn]
	lp := []int{0, 1, 1, 2, 4, 2}[pn]
	sn := sym.Choose("where", 5)
	eq := []string{"dconc/dt=" + p + "TERM", "dconc/dt = -" + p + "TERM", "dconc/dt = conc^2 - " + p + "TERM", "dconc/dt = -m1*conc + " + p + "TERM", "dconc/dt = -" + p + "TERM + m1*conc - conc^2"}[sn]
	sg := []float64{1, -1, -1, 1, -1}[sn]
	sq := []float64{0, 0, 1, 0, -1}[sn]
	li := []float64{0, 0, 0, -1, 1}[sn]
	w.m.AddEquation(eq)
	w.transform()
	tt := sym.Float("t", 0, 4)
	rhs := w.m.GetRHS(0, w.ft.Freq, tt)
	den := w.m.GetDenum(0, w.ft.Freq, tt)
	x2 := make([]complex128, 4)
	for k := range x2 {
		x2[k] = complex(w.fields[0][k]*w.fields[0][k], 0)
	}
	f2 := ref.DFT(w.d, x2, -1)
	for k := range rhs {
		l := sg * math.Pow(-ref.K2(w.d, k), float64(lp)) * (1 + float64(k))
		if lp == 0 {
			l = sg * (1 + float64(k))
		}
		l *= 1 + tt
		e := complex(sq, 0) * f2[k]
		i := complex(li*w.scalars["m1"], 0)
		switch kind {
		case 0:
			e += complex(l, 0) * a
		case 1:
			i += complex(l, 0) * a
		case 2:
			e += complex(l, 0) * b
			i += complex(l, 0) * a
		}
		sym.CloseC("explicit", rhs[k], e, 1e-5)
		sym.CloseC("implicit", den[k], i, 1e-5)
	}
}

func HRefused() {
	sym.Bound("unknown names of one to five letters in any position are refused")
	nm := []string{"x", "ab", "LA", "xyz", "LAPx", "eta^2"}[sym.Choose("name", 6)]
	eq := []string{"dconc/dt = %s", "dconc/dt = conc - %s*conc", "dconc/dt = LAP %s + conc", "dconc/dt = m1*%s*conc^2"}[sym.Choose("where", 4)]
	w := build([]int{1, 2}, []string{"conc"}, []string{"m1"})
	sym.Assert("refused", sym.Panics(func() {
		w.m.AddEquation(fmt.Sprintf(eq, nm))
		w.m.Init()
	}))
}

// HDecimal: powers that are not integers.
func HDecimal() {
	sym.Bound("decimal powers: scalars (values 0.25, 2, 3.7) with powers 0.5, 1.5, 2.0, 2.25 in front of an arbitrary field (alone: implicit; squared: explicit), and fields with positive values and powers 0.5, 1.0, 1.5, 2.5, with and without one Laplacian")
	n := 3
	d := []int{1, n}
	v := []float64{0.25, 2, 3.7}[sym.Choose("value", 3)]
	lap := sym.Choose("lap", 2)
	ls := []string{"", "LAP "}[lap]
	m := pf.NewModel()
	ft := pfutil.NewFFTW(d)
	want := make([]complex128, n)
	var x []float64
	eq, lin := "", false
	if sym.Choose("kind", 2) == 0 {
		x = ref.Real("conc", n, -2, 2)
		sp := []string{"0.5", "1.5", "2.0", "2.25"}
		ip := sym.Choose("power", len(sp))
		c := math.Pow(v, []float64{0.5, 1.5, 2, 2.25}[ip])
		lin = sym.Choose("linear", 2) == 0
		if lin {
			eq = "m1^" + sp[ip] + "*" + ls + "conc"
		} else {
			eq = "m1^" + sp[ip] + "*" + ls + "conc^2"
		}
		for k := range want {
			want[k] = complex(c*x[k], 0)
			if !lin {
				want[k] *= complex(x[k], 0)
			}
		}
	} else {
		x = []float64{v, 1.25, 0.5 + v}
		sp := []string{"0.5", "1.0", "1.5", "2.5"}
		ip := sym.Choose("power", len(sp))
		eq = ls + "conc^" + sp[ip]
		lin = ip == 1
		for k := range want {
			want[k] = complex(math.Pow(x[k], []float64{0.5, 1, 1.5, 2.5}[ip]), 0)
		}
	}
	m.AddField(pf.NewField("conc", n, ref.ToC(x)))
	m.AddScalar(pf.NewScalar("m1", complex(v, 0)))
	m.AddEquation("dconc/dt = - " + eq)
	m.Init()
	m.SyncDerivedFields()
	for _, f := range m.Fields {
		ft.FFT(f.Data)
	}
	for _, f := range m.DerivedFields {
		ft.FFT(f.Data)
	}
	rhs := m.GetRHS(0, ft.Freq, 0)
	den := m.GetDenum(0, ft.Freq, 0)
	wh := ref.DFT(d, want, -1)
	xh := ref.DFT(d, ref.ToC(x), -1)
	for k := range wh {
		l := -1.0
		if lap == 1 {
			l *= -ref.K2(d, k)
		}
		if lin {
			sym.CloseC("explicit part of a linear term", rhs[k], 0, 1e-9)
		} else {
			sym.CloseC("implicit part of a non-linear term", den[k], 0, 1e-9)
		}
		sym.CloseC("sum", rhs[k]+den[k]*xh[k], complex(l, 0)*wh[k], 1e-6)
	}
}
