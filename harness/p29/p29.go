// Package p29 checks the noise terms. The random numbers are arbitrary: a stand-in for math/rand hands them out.
package p29

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/zverif/rand"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

// tagged makes draws whose size tells which draw they are.
func tagged() {
	rand.Reset()
	rand.Norm = func(k int) float64 { return float64(10*k) + sym.Float("normal", 1, 2) }
}

// plain makes draws of any size.
func plain() {
	rand.Reset()
	rand.Norm = func(k int) float64 { return sym.Float("normal", -6, 6) }
}

// which is the number of the draw v is, -1 if none.
func which(v float64) int {
	for k := range rand.Drawn {
		if v > float64(10*k)+0.5 && v < float64(10*k)+2.5 {
			return k
		}
	}
	return -1
}

// fresh checks that every value is the scale times a draw of its own, made after the first min ones.
func fresh(label string, vals []complex128, scale float64, min int, seen map[int]bool) {
	for _, v := range vals {
		sym.Close(label+" real", imag(v), 0, 0)
		k := which(real(v) / scale)
		sym.Assert(label+" is a draw", k >= 0)
		if k < 0 {
			continue
		}
		sym.Close(label+" scale", real(v), scale*rand.Drawn[k], 1e-9)
		sym.Assert(label+" independent", !seen[k])
		sym.Assert(label+" redrawn", k >= min)
		seen[k] = true
	}
}

// HWhite: the draw times sqrt(2 strength).
func HWhite() {
	sym.Bound("strength in [0,50], any draw in [-6,6], three nodes")
	plain()
	s := sym.Float("strength", 0, 50)
	w := pf.WhiteNoise{Strength: s}
	for i := 0; i < 3; i++ {
		v := w.Generate(i, nil)
		sym.EqInt("one draw", len(rand.Drawn), i+1)
		if len(rand.Drawn) == i+1 {
			d := rand.Drawn[i]
			sym.Close("value", real(v), math.Sqrt(2*s)*d, 1e-9)
			sym.Close("variance", real(v)*real(v), 2*s*d*d, 1e-6)
		}
		sym.Close("real", imag(v), 0, 0)
	}
}

// HWhiteModel: every node gets its own number in every step.
func HWhiteModel() {
	d := ref.Grids("grid", [][]int{{2, 2}, {3, 2}})
	n := ref.Num(d)
	sym.Bound("two steps, strengths in [0.1,20], fields in [-2,2], time step 0.1")
	tagged()
	s := sym.Float("strength", 0.1, 20)
	w := pf.WhiteNoise{Strength: s}
	x := ref.Real("x", n, -2, 2)
	f := pf.NewField("x", n, ref.ToC(x))
	m := pf.NewModel()
	m.AddField(f)
	m.RegisterFunction("WHITE", w.Generate)
	m.AddEquation("dx/dt = WHITE")
	sol := pf.NewSolver(&m, d, 0.1)
	prev := ref.ToC(x)
	seen := map[int]bool{}
	for step := 0; step < 2; step++ {
		min := len(rand.Drawn)
		sol.Stepper.Step(&m)
		inc := make([]complex128, n)
		for i := range inc {
			inc[i] = (m.Fields[0].Data[i] - prev[i]) / complex(0.1, 0)
			sym.Close("field real", imag(inc[i]), 0, 1e-9)
			inc[i] = complex(real(inc[i]), 0)
		}
		prev = ref.CopyC(m.Fields[0].Data)
		fresh("increment", inc, math.Sqrt(2*s), min, seen)
	}
}

// HCurrentScale: a component of the current is the draw times sqrt(2 strength).
func HCurrentScale() {
	sym.Bound("strength in [0,50], any draw in [-6,6]")
	plain()
	s := sym.Float("strength", 0, 50)
	cn := pf.NewConservativeNoise(s, 1)
	f := cn.RequiredDerivedFields(1)
	sym.EqInt("one component", len(f), 1)
	for i := 0; i < 2; i++ {
		f[0].Calc(f[0].Data)
		sym.EqInt("one draw", len(rand.Drawn), i+1)
		if len(rand.Drawn) == i+1 {
			sym.Close("value", real(f[0].Data[0]), math.Sqrt(2*s)*rand.Drawn[i], 1e-9)
		}
		sym.Close("real", imag(f[0].Data[0]), 0, 0)
	}
}

// HCurrents: the components are filled with numbers of their own every time.
func HCurrents() {
	sym.Bound("one to three dimensions, two to four nodes, two evaluations, strength in [0.1,20], changed between them")
	tagged()
	s := sym.Float("strength", 0.1, 20)
	dim := 1 + sym.Choose("dimensions", 3)
	n := 2 + sym.Choose("nodes", 3)
	cn := pf.NewConservativeNoise(s, dim)
	f := cn.RequiredDerivedFields(n)
	sym.EqInt("components", len(f), dim)
	names := map[string]bool{}
	for c := range f {
		sym.EqInt("nodes", len(f[c].Data), n)
		sym.EqStr("name", f[c].Name, cn.GetCurrentName(c))
		sym.Assert("names differ", !names[f[c].Name])
		names[f[c].Name] = true
	}
	other := pf.NewConservativeNoise(s, dim)
	for _, g := range other.RequiredDerivedFields(n) {
		sym.Assert("names of terms differ", !names[g.Name])
	}
	seen := map[int]bool{}
	for e := 0; e < 2; e++ {
		min := len(rand.Drawn)
		for c := range f {
			f[c].Calc(f[c].Data)
		}
		for c := range f {
			fresh("current", f[c].Data, math.Sqrt(2*s), min, seen)
		}
		// the strength may be changed while running
		s = sym.Float("strength later", 0.1, 20)
		cn.Strength = s
	}
}

type brick []complex128

func (b brick) Get(i int) complex128 { return b[i] }

// div is the transform of the discrete divergence of the transformed currents.
func div(d []int, cur [][]complex128) []complex128 {
	out := make([]complex128, ref.Num(d))
	for k := range out {
		f := ref.F(d, k)
		for c := range cur {
			if !ref.Nyq(d, k, c) {
				out[k] += complex(0, 2*math.Sin(math.Pi*f[c])) * cur[c][k]
			}
		}
	}
	return out
}

func grids() [][]int {
	g := [][]int{{2, 2}, {3, 4}, {2, 3, 2}}
	if sym.Thorough() {
		g = append(g, []int{4, 5}, []int{8, 6}, []int{3, 2, 4}, []int{4, 4, 4}, []int{5, 3, 3})
	}
	return g
}

// HDivergence: the term is the discrete divergence of the currents registered under its own names.
func HDivergence() {
	divergence(ref.Grids("grid", grids()))
}

// HLong: the same on long axes.
func HLong() {
	sym.Bound("axes of up to 101 nodes for the divergence")
	divergence(ref.Grids("long", [][]int{{1, 101}, {51, 1}, {1, 100}, {1, 1, 65}, {1, 64, 1}}))
}

func divergence(d []int) {
	n := ref.Num(d)
	sym.Bound("arbitrary complex transformed currents and previous contents")
	plain()
	cn := pf.NewConservativeNoise(sym.Float("strength", 0, 50), len(d))
	fq := func(i int) []float64 { return ref.F(d, i) }
	b := map[string]pf.Brick{}
	var cur [][]complex128
	for c := range d {
		sym.Assert("missing", !cn.CurrentFieldsAreRegistered(b))
		sym.Assert("refused", sym.Panics(func() { cn.Construct(b) }))
		cur = append(cur, ref.Cplx(fmt.Sprintf("j%d_", c), n, -3, 3))
		b[cn.GetCurrentName(c)] = brick(cur[c])
	}
	b["conc"] = brick(make([]complex128, n))
	b[fmt.Sprint(cn.UniquePrefix)] = brick(make([]complex128, n))
	sym.Assert("present", cn.CurrentFieldsAreRegistered(b))
	t := cn.Construct(b)
	got := ref.Cplx("old", n, -3, 3)
	t(fq, sym.Float("time", 0, 9), got)
	ref.CloseAll("divergence", got, div(d, cur), 1e-9)
	sym.CloseC("mean", got[0], 0, 0)
	cn.OnStepFinished(1, b)
	for c := range cur {
		for k := range cur[c] {
			cur[c][k] *= 2
		}
	}
	t(fq, 0, got)
	ref.CloseAll("current values", got, div(d, cur), 1e-9)
}

// HConserve: a model driven by the noise changes by the divergence of the latest currents and keeps its sum.
func HConserve() {
	g := [][]int{{2, 2}, {3, 4}, {2, 3, 2}}
	if sym.Thorough() {
		g = append(g, []int{4, 5}, []int{3, 2, 4})
	}
	d := ref.Grids("grid", g)
	n := ref.Num(d)
	sym.Bound("two steps, strength in [0.1,20], fields in [-2,2], draws in [-6,6], time step 0.1")
	plain()
	cn := pf.NewConservativeNoise(sym.Float("strength", 0.1, 20), len(d))
	x := ref.Real("x", n, -2, 2)
	m := pf.NewModel()
	m.AddField(pf.NewField("x", n, ref.ToC(x)))
	df := cn.RequiredDerivedFields(n)
	rec := make([][]complex128, len(df))
	calls := make([]int, len(df))
	for c := range df {
		c, calc := c, df[c].Calc
		df[c].Calc = func(data []complex128) {
			calc(data)
			rec[c] = ref.CopyC(data)
			calls[c]++
		}
	}
	m.RegisterExplicitTerm("NOISE", &cn, df)
	m.AddEquation("dx/dt = NOISE")
	sol := pf.NewSolver(&m, d, 0.1)
	prev := ref.ToC(x)
	for step := 0; step < 2; step++ {
		before := append([]int(nil), calls...)
		sol.Stepper.Step(&m)
		cur := make([][]complex128, len(rec))
		for c := range rec {
			sym.Assert("redrawn", calls[c] > before[c])
			cur[c] = ref.DFT(d, rec[c], -1)
		}
		want := ref.IDFT(d, div(d, cur))
		sum := complex(0, 0)
		inc := make([]complex128, n)
		for i := range inc {
			inc[i] = (m.Fields[0].Data[i] - prev[i]) / complex(0.1, 0)
			sum += inc[i]
			sym.Close("real", imag(inc[i]), 0, 1e-8)
		}
		prev = ref.CopyC(m.Fields[0].Data)
		ref.CloseAll("increment", inc, want, 1e-7)
		sym.CloseC("sum", sum, 0, 1e-7)
	}
}
