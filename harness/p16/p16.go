// Package p16 checks the registration of names in a model.
package p16

import (
	"fmt"
	"sort"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/mdl"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

const tol = 1e-9

// perm chooses an order of n things.
func perm(n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var out []int
	for len(rest) > 0 {
		q := 0
		if len(rest) > 1 {
			q = sym.Choose(fmt.Sprintf("order%d", len(out)), len(rest))
		}
		out = append(out, rest[q])
		rest = append(rest[:q:q], rest[q+1:]...)
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// HNames: every name refers to what was registered under it.
func HNames() {
	sym.Bound("two or three fields, then two scalars, two functions, a derived field and a term with two derived fields in all rotations of one order and its reverse (every order in thorough runs); arbitrary values, changed arbitrarily before each of two updates; three nodes")
	n := 3
	m := pf.NewModel()
	names := []string{"conc", "conc2", "eta"}[:2+sym.Choose("fields", 2)]
	val := map[string][]complex128{}
	for _, s := range names {
		val[s] = ref.ToC(ref.Real(s+"_", n, -2, 2))
		m.AddField(pf.NewField(s, n, ref.CopyC(val[s])))
	}
	sc := map[string]complex128{}
	calc := map[string]func(i int) complex128{}
	fn := func(name string, p, q float64) pf.GenericFunction {
		calc[name] = func(i int) complex128 { return complex(p, 0)*val["conc"][i] + complex(q, 0)*val["conc2"][i] }
		return func(i int, b map[string]pf.Brick) complex128 {
			return complex(p, 0)*b["conc"].Get(i) + complex(q, 0)*b["conc2"].Get(i)
		}
	}
	df := func(name string, p float64) pf.DerivedField {
		calc[name] = func(i int) complex128 { return complex(p, 0) * val["conc2"][i] * val["conc"][i] }
		return pf.DerivedField{Name: name, Data: make([]complex128, n), Calc: func(data []complex128) {
			for i := range data {
				data[i] = complex(p, 0) * m.Fields[1].Data[i] * m.Fields[0].Data[i]
			}
		}}
	}
	term := &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 { return 0 }}
	order := []int{0, 1, 2, 3, 4, 5}
	if sym.Thorough() {
		order = perm(6)
	} else {
		rot, rev := sym.Choose("rotation", 6), sym.Choose("reverse", 2) == 1
		for q := range order {
			order[q] = (q + rot) % 6
			if rev {
				order[q] = (rot + 5 - q) % 6
			}
		}
	}
	for _, op := range order {
		switch op {
		case 0:
			sc["mob"] = complex(sym.Float("mob", -2, 2), 0)
			m.AddScalar(pf.NewScalar("mob", sc["mob"]))
		case 1:
			sc["mobility"] = complex(sym.Float("mobility", -2, 2), sym.Float("mobilityi", -2, 2))
			m.AddScalar(pf.NewScalar("mobility", sc["mobility"]))
		case 2:
			m.RegisterFunction("func", fn("func", 1, -2))
		case 3:
			m.RegisterFunction("func2", fn("func2", 3, 0.5))
		case 4:
			m.RegisterDerivedField(df("prod", 2))
		case 5:
			dfs := []pf.DerivedField{df("first", -1), df("TERM", 4)} // a field may have the name of its term
			switch sym.Choose("kind", 3) {
			case 0:
				m.RegisterExplicitTerm("TERM", term, dfs)
				sym.Assert("kind", m.IsExplicitTerm("TERM") && !m.IsImplicitTerm("TERM") && !m.IsMixedTerm("TERM"))
			case 1:
				m.RegisterImplicitTerm("TERM", term, dfs)
				sym.Assert("kind", m.IsImplicitTerm("TERM") && !m.IsExplicitTerm("TERM") && !m.IsMixedTerm("TERM"))
			case 2:
				m.RegisterMixedTerm("TERM", term, dfs)
				sym.Assert("kind", m.IsMixedTerm("TERM") && !m.IsImplicitTerm("TERM") && !m.IsExplicitTerm("TERM"))
			}
			sym.Assert("userdefined", m.IsUserDefinedTerm("TERM") && !m.IsUserDefinedTerm("conc") && !m.IsUserDefinedTerm("func"))
		}
	}
	for rep := 0; rep < 2; rep++ {
		m.SyncDerivedFields()
		for _, s := range names {
			sym.Assert("exists."+s, m.IsFieldName(s) && m.IsBrickName(s))
			for i := 0; i < n; i++ {
				sym.CloseC("field."+s, m.Bricks[s].Get(i), val[s][i], 0)
			}
		}
		for s, v := range sc {
			sym.Assert("exists."+s, !m.IsFieldName(s) && m.IsBrickName(s))
			for i := 0; i < n; i++ {
				sym.CloseC("scalar."+s, m.Bricks[s].Get(i), v, 0)
			}
		}
		for s, f := range calc {
			sym.Assert("exists."+s, m.IsFieldName(s) && m.IsBrickName(s))
			for i := 0; i < n; i++ {
				sym.CloseC("derived."+s, m.Bricks[s].Get(i), f(i), tol)
			}
		}
		for k, f := range m.Fields {
			v := ref.ToC(ref.Real(fmt.Sprintf("new%d_%d_", rep, k), n, -2, 2))
			copy(f.Data, v)
			val[f.Name] = v
		}
		v := sym.Float("set", -2, 2)
		m.Bricks["mob"].(*pf.Scalar).SetFloat(v)
		sc["mob"] = complex(v, 0)
	}
	all := m.AllFieldNames()
	sym.EqInt("number of fields", len(all), len(names)+len(calc))
	for _, s := range names {
		sym.Assert("listed."+s, contains(all, s))
	}
	for s := range calc {
		sym.Assert("listed."+s, contains(all, s))
	}
	vars := m.AllVariableNames()
	sort.Strings(vars)
	want := append([]string{}, names...)
	for s := range sc {
		want = append(want, s)
	}
	for s := range calc {
		want = append(want, s)
	}
	sort.Strings(want)
	sym.EqStr("variables", strings.Join(vars, " "), strings.Join(want, " "))
	sym.Assert("unknown", !m.IsBrickName("con") && !m.IsFieldName("con") && !m.IsFieldName("mob") && !m.IsUserDefinedTerm("TER"))
}

// HOverwrite: derived fields of terms never replace fields of the same name.
func HOverwrite() {
	sym.Bound("a term that brings a derived field with the name of a field or of an earlier derived field; arbitrary values")
	n := 3
	m := pf.NewModel()
	x := ref.ToC(ref.Real("x", n, -2, 2))
	m.AddField(pf.NewField("conc", n, ref.CopyC(x)))
	term := &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 { return 0 }}
	mk := func(name string, v float64) pf.DerivedField {
		return pf.DerivedField{Name: name, Data: make([]complex128, n), Calc: func(data []complex128) {
			for i := range data {
				data[i] = complex(v, 0)
			}
		}}
	}
	a, b, c := sym.Float("a", -2, 2), sym.Float("b", -2, 2), sym.Float("c", -2, 2)
	reg := func(name string, d []pf.DerivedField) {
		switch sym.Choose("kind"+name, 3) {
		case 0:
			m.RegisterExplicitTerm(name, term, d)
		case 1:
			m.RegisterImplicitTerm(name, term, d)
		case 2:
			m.RegisterMixedTerm(name, term, d)
		}
	}
	reg("TERMA", []pf.DerivedField{mk("shared", a)})
	reg("TERMB", []pf.DerivedField{mk("conc", b), mk("shared", a), mk("own", c)})
	m.SyncDerivedFields()
	for i := 0; i < n; i++ {
		sym.CloseC("field", m.Bricks["conc"].Get(i), x[i], 0)
		sym.CloseC("data", m.Fields[0].Data[i], x[i], 0)
		sym.CloseC("shared", m.Bricks["shared"].Get(i), complex(a, 0), 0)
		sym.CloseC("own", m.Bricks["own"].Get(i), complex(c, 0), 0)
	}
	sym.EqInt("derived", len(m.DerivedFields), 2)
}

// HProducts: the derived fields an equation needs hold the products they are named after.
func HProducts() {
	sym.Bound("equations with products of powers of two fields; arbitrary real values in [0.5,2], changed before the second update; two nodes")
	n := 2
	m := pf.NewModel()
	x, y := ref.Real("x", n, 0.5, 2), ref.Real("y", n, 0.5, 2)
	m.AddField(pf.NewField("conc", n, ref.ToC(x)))
	m.AddField(pf.NewField("eta", n, ref.ToC(y)))
	m.AddScalar(pf.NewScalar("mob", 2))
	list := []struct {
		eq, name string
		f        func(a, b float64) float64
	}{
		{"dconc/dt = mob*conc^2*eta", "conc^2*eta", func(a, b float64) float64 { return a * a * b }},
		{"dconc/dt = eta*mob*LAP*conc", "conc*eta", func(a, b float64) float64 { return a * b }},
		{"dconc/dt = - eta^3*conc^2 + mob*conc", "conc^2*eta^3", func(a, b float64) float64 { return a * a * b * b * b }},
		{"dconc/dt = conc + eta^2", "eta^2", func(a, b float64) float64 { return b * b }},
		{"dconc/dt = conc^3 + LAP^2 conc", "conc^3", func(a, b float64) float64 { return a * a * a }},
	}
	e := list[sym.Choose("equation", len(list))]
	m.AddEquation(e.eq)
	m.AddEquation("deta/dt = mob*eta")
	sym.EqInt("derived", len(m.DerivedFields), 1)
	sym.Assert("name", m.IsFieldName(e.name) && m.IsBrickName(e.name))
	for rep := 0; rep < 2; rep++ {
		m.Init()
		for i := 0; i < n; i++ {
			sym.CloseC("product", m.Bricks[e.name].Get(i), complex(e.f(x[i], y[i]), 0), 1e-7)
		}
		x, y = ref.Real("newx", n, 0.5, 2), ref.Real("newy", n, 0.5, 2)
		copy(m.Fields[0].Data, ref.ToC(x))
		copy(m.Fields[1].Data, ref.ToC(y))
	}
}

// HEquations: equations evolve the field on their left hand side, whatever order they were added in.
func HEquations() {
	sym.Bound("three fields (three sets of names: containing each other, with digits and underscores, differing in case), their equations added in every order, with a source and a modifier each; arbitrary values; two nodes; one Euler step")
	d := []int{1, 2}
	n := 2
	names := [][]string{{"conc", "con", "deta"}, {"c_2", "c", "dc_2"}, {"phi", "Phi", "dt"}}[sym.Choose("names", 3)]
	m := pf.NewModel()
	x := map[string][]float64{}
	for _, s := range names {
		x[s] = ref.Real(s, n, -2, 2)
		m.AddField(pf.NewField(s, n, ref.ToC(x[s])))
	}
	rate := map[string]float64{}
	src := map[string]float64{}
	for _, s := range names {
		s := s
		rate[s] = sym.Float("rate_"+s, -2, 2)
		src[s] = sym.Float("src_"+s, -2, 2)
		r := rate[s]
		m.RegisterExplicitTerm("TERM_"+s, &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 {
			if k == 0 {
				return complex(float64(n)*r, 0)
			}
			return 0
		}}, nil)
	}
	for k, p := range perm(3) {
		s := names[p]
		m.AddEquation("d" + s + "/dt = TERM_" + s)
		sym.EqInt("number", m.EqNumber(s), k)
	}
	for _, s := range names {
		v := src[s]
		m.AddSource(m.EqNumber(s), pf.NewSource([]float64{0, 1}, func(t float64) float64 { return v }))
	}
	m.RegisterRHSModifier(m.EqNumber(names[1]), func(data []complex128) {
		for k := range data {
			data[k] *= 3
		}
	})
	sym.Assert("unknown", sym.Panics(func() { m.EqNumber("eta") }) && sym.Panics(func() { m.EqNumber("_2") }) && sym.Panics(func() { m.EqNumber("hi") }))
	m.Init()
	dt := sym.Float("dt", 0.01, 1)
	eu := pf.Euler{Dt: dt, FT: pfutil.NewFFTW(d)}
	eu.Step(&m)
	for k, s := range names {
		f := 1.0
		if s == names[1] {
			f = 3
		}
		for i := 0; i < n; i++ {
			w := x[s][i] + dt*f*rate[s]
			if i == 1 {
				w += dt * f * src[s]
			}
			sym.CloseC("step."+s, m.Fields[k].Data[i], complex(w, 0), 1e-7)
			sym.CloseC("brick."+s, m.Bricks[s].Get(i), complex(w, 0), 1e-7)
		}
	}
}

// HGuard: implicit terms are validated.
func HGuard() {
	sym.Bound("implicit coefficients a*conc + b*eta + c*conc*eta + e*func + g(k) + scalar*|f|^2 + t with any a, b, c, e that are zero or at least 0.01 in magnitude, at any state of two nodes")
	n := 2
	m := pf.NewModel()
	m.AddField(pf.NewField("conc", n, ref.ToC(ref.Real("conc", n, -1, 1))))
	m.AddField(pf.NewField("eta", n, ref.ToC(ref.Real("eta", n, -1, 1))))
	m.AddScalar(pf.NewScalar("mob", complex(sym.Float("mob", -2, 2), 0)))
	m.RegisterFunction("func", func(i int, b map[string]pf.Brick) complex128 { return b["conc"].Get(i) })
	coef := make([]float64, 4)
	mask := sym.Choose("depends", 16)
	for q := range coef {
		if mask>>uint(q)&1 == 1 {
			coef[q] = sym.Float(fmt.Sprintf("c%d", q), 0.01, 2)
			if sym.Choose(fmt.Sprintf("sign%d", q), 2) == 1 {
				coef[q] = -coef[q]
			}
		}
	}
	g := ref.Real("g", n, -2, 2)
	m.RegisterImplicitTerm("TERM", &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 {
		c, e, h := b["conc"].Get(k), b["eta"].Get(k), b["func"].Get(k)
		return complex(coef[0], 0)*c + complex(coef[1], 0)*e + complex(coef[2], 0)*c*e + complex(coef[3], 0)*h +
			complex(g[k], 0) + b["mob"].Get(k)*complex(f[0]*f[0]+f[1]*f[1], 0)
	}}, nil)
	m.AddEquation("dconc/dt = TERM")
	m.AddEquation("deta/dt = mob*eta")
	refused := sym.Panics(func() { m.Init() })
	sym.Assert("guard", refused == (mask != 0))
}

// HGuard3D: a coefficient may use every component of the frequency.
func HGuard3D() {
	sym.Bound("an implicit coefficient that uses the third component of the frequency on a 2x1x2 grid")
	d := []int{2, 1, 2}
	n := 4
	m := pf.NewModel()
	m.AddField(pf.NewField("conc", n, ref.ToC(ref.Real("conc", n, -1, 1))))
	m.RegisterImplicitTerm("TERM", &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 {
		return complex(-f[0]*f[0]-2*f[2]*f[2], 0)
	}}, nil)
	m.AddEquation("dconc/dt = TERM")
	refused := sym.Panics(func() { pf.NewSolver(&m, d, 0.1) })
	sym.Assert("third component", !refused)
}

// HSummary: the printed summary has one row per equation with the terms treated each way.
func HSummary() {
	sym.Bound("one to three equations with two to four terms of five kinds, the first two of the first equation any; also before the model is initialised")
	m := pf.NewModel()
	names := []string{"conc", "eta", "temp"}[:1+sym.Choose("fields", 3)]
	m.AddScalar(pf.NewScalar("m1", complex(-0.5, 0)))
	for _, f := range names {
		m.AddField(pf.NewField(f, 2, nil))
	}
	m.RegisterExplicitTerm("EXPL", &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 { return 0 }}, nil)
	m.RegisterImplicitTerm("IMPL", &mdl.Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 { return 0 }}, nil)
	var eqs []string
	var ne, ni []int
	for q, f := range names {
		eq, e, i := "d"+f+"/dt = ", 0, 0
		nt := 2
		if q == 0 {
			nt += sym.Choose("terms", 3)
		}
		for t := 0; t < nt; t++ {
			k := (t*2 + q) % 5
			if q == 0 && t < 2 {
				k = sym.Choose("kind", 5)
			}
			if t > 0 {
				eq += " + "
			}
			switch k {
			case 0:
				eq += "m1*" + f
				i++
			case 1:
				eq += f + "^2"
				e++
			case 2:
				eq += "EXPL"
				e++
			case 3:
				eq += "IMPL"
				i++
			case 4:
				eq += "m1*LAP " + f
				i++
			}
		}
		m.AddEquation(eq)
		eqs, ne, ni = append(eqs, eq), append(ne, e), append(ni, i)
	}
	if sym.Bool("early") {
		before := len(sym.Printed())
		m.Summarize()
		sym.Assert("no counts before the model is initialised", !strings.Contains(sym.Printed()[before:], eqs[0]))
	}
	m.Init()
	before := len(sym.Printed())
	m.Summarize()
	row := 0
	for _, l := range strings.Split(sym.Printed()[before:], "\n") {
		w := strings.Split(l, "|")
		if len(w) != 6 || strings.TrimSpace(w[1]) == "Eq" {
			continue
		}
		if row < len(eqs) {
			sym.EqStr("number", strings.TrimSpace(w[1]), fmt.Sprint(row))
			sym.EqStr("equation", strings.ReplaceAll(w[2], " ", ""), strings.ReplaceAll(eqs[row], " ", ""))
			sym.EqStr("explicit terms", strings.TrimSpace(w[3]), fmt.Sprint(ne[row]))
			sym.EqStr("implicit terms", strings.TrimSpace(w[4]), fmt.Sprint(ni[row]))
		}
		row++
	}
	sym.EqInt("rows", row, len(eqs))
}
