// Package p12 checks the spectral operators against the exact derivatives of the trigonometric interpolant.
package p12

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

func grids() []int {
	list := [][]int{{2, 3}, {3, 2}, {4, 3}, {2, 4}, {3, 3}, {2, 3, 4}, {3, 2, 2}, {1, 1, 3}, {1, 4, 1}, {4, 1, 1}}
	if sym.Thorough() {
		list = append(list, []int{4, 4}, []int{3, 5}, []int{6, 2}, []int{1, 4}, []int{4, 2, 3}, []int{3, 4, 2}, []int{3, 3, 2}, []int{2, 2, 5})
	}
	d := ref.Grids("grid", list)
	sym.Bound("grid sizes " + fmt.Sprint(list))
	return d
}

// small grids, for the operators that multiply fields
func small() []int {
	list := [][]int{{2, 3}, {3, 2}, {4, 3}, {2, 4}, {3, 2, 2}, {1, 3, 1}, {1, 1, 3}, {1, 1, 4}, {1, 4, 1}, {4, 1, 1}}
	if sym.Thorough() {
		list = append(list, []int{3, 3}, []int{4, 4}, []int{3, 5}, []int{2, 2, 4}, []int{2, 4, 2})
	}
	d := ref.Grids("grid", list)
	sym.Bound("grid sizes " + fmt.Sprint(list))
	return d
}

// hats is the transformed brick.
func brick(name string, d []int, x []complex128) pf.Field {
	return pf.NewField(name, ref.Num(d), ref.DFT(d, x, -1))
}

// der differentiates the interpolant once along axis a (in the frequency domain).
func der(d []int, a int, hat []complex128, keep bool) []complex128 {
	out := make([]complex128, len(hat))
	for k := range hat {
		f := ref.F(d, k)[a]
		if ref.Nyq(d, k, a) && !keep {
			f = 0
		}
		out[k] = hat[k] * complex(0, 2*math.Pi*f)
	}
	return out
}

func grad(d []int, a int, x []complex128) []complex128 {
	return ref.IDFT(d, der(d, a, ref.DFT(d, x, -1), false))
}

// HLaplacian: powers of the Laplacian.
func HLaplacian() {
	d := grids()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	p := sym.Choose("power", 3) + 1
	x := ref.Cplx("u", n, -2, 2)
	y := ref.CopyC(x)
	l := pf.LaplacianN{Power: p}
	out := l.Eval(ft.Freq, y)
	sym.EqInt("len", len(out), n)
	for k := range x {
		s := math.Pow(-ref.K2(d, k), float64(p))
		tol := 1e-9 * (1 + math.Abs(s))
		sym.CloseC("laplacian", out[k], x[k]*complex(s, 0), tol)
		sym.CloseC("laplacian.inplace", y[k], x[k]*complex(s, 0), tol)
	}
}

// HGradient: components of the gradient, with and without the unpaired frequency.
func HGradient() {
	d := grids()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	a := sym.Choose("axis", len(d))
	keep := sym.Choose("keep", 2) == 1
	x := ref.ToC(ref.Real("u", n, -2, 2))
	if keep {
		x = ref.Cplx("u", n, -2, 2)
	}
	in := ref.CopyC(x)
	g := pf.GradientCalculator{FT: ft, Comp: a, KeepNyquist: keep}
	out := make([]complex128, n)
	want := ref.IDFT(d, der(d, a, ref.DFT(d, x, -1), keep))
	switch sym.Choose("form", 3) {
	case 0:
		g.Calculate(in, out)
		ref.CloseAll("input", in, x, 0)
	case 1:
		g.Calculate(in, in)
		out = in
	case 2:
		b := pf.NewField("conc", n, in)
		df := g.ToDerivedField("grad_conc", n, b)
		sym.EqStr("name", df.Name, "grad_conc")
		df.Update()
		df.Update()
		out = df.Data
		ref.CloseAll("input", in, x, 0)
	}
	ref.CloseAll("gradient", out, want, 1e-8)
}

// HDivGrad: divergence of a weighted gradient.
func HDivGrad() {
	d := small()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	m := pf.NewModel()
	u := ref.ToC(ref.Real("u", n, -2, 2))
	v := ref.ToC(ref.Real("v", n, -2, 2))
	m.AddField(pf.NewField("conc", n, ref.CopyC(u)))
	m.AddField(pf.NewField("eta", n, ref.CopyC(v)))
	w := ref.Real("w", n, -2, 2)
	c := sym.Float("c", -2, 2)
	dg := pf.DivGrad{Field: "conc", F: func(i int, b map[string]pf.Brick) complex128 {
		return complex(w[i], 0) + complex(c, 0)*b["eta"].Get(i)
	}}
	dg.PrepareModel(n, &m, ft)
	m.SyncDerivedFields()
	bricks := map[string]pf.Brick{}
	for _, f := range m.DerivedFields {
		bricks[f.Name] = brick(f.Name, d, f.Data)
	}
	bricks["conc"] = brick("conc", d, m.Fields[0].Data)
	bricks["eta"] = brick("eta", d, m.Fields[1].Data)
	out := ref.Cplx("junk", n, -1, 1)
	dg.Construct(bricks)(ft.Freq, 0, out)

	want := make([]complex128, n)
	for a := range d {
		g := grad(d, a, u)
		for i := range g {
			g[i] *= complex(w[i], 0) + complex(c, 0)*v[i]
		}
		for k, x := range der(d, a, ref.DFT(d, g, -1), false) {
			want[k] += x
		}
	}
	ref.CloseAll("divgrad", out, want, 1e-7)
}

// HWeightedLaplacian: a function times the Laplacian.
func HWeightedLaplacian() {
	d := small()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	u := ref.ToC(ref.Real("u", n, -2, 2))
	w := ref.ToC(ref.Real("w", n, -2, 2))
	bricks := map[string]pf.Brick{"conc": brick("conc", d, u), "func": brick("func", d, w)}
	wl := pf.WeightedLaplacian{Field: "conc", PreFactor: "func", FT: ft}
	out := ref.Cplx("junk", n, -1, 1)
	wl.Construct(bricks)(ft.Freq, 0, out)
	h := ref.DFT(d, u, -1)
	for k := range h {
		h[k] *= complex(-ref.K2(d, k), 0)
	}
	l := ref.IDFT(d, h)
	for i := range l {
		l[i] *= w[i]
	}
	ref.CloseAll("weighted", out, ref.DFT(d, l, -1), 1e-7)
	ref.CloseAll("brick", bricks["conc"].(pf.Field).Data, ref.DFT(d, u, -1), 1e-9)
	ref.CloseAll("brick", bricks["func"].(pf.Field).Data, ref.DFT(d, w, -1), 1e-9)
}

// HAdvection: minus velocity times gradient.
func HAdvection() {
	d := small()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	m := pf.NewModel()
	u := ref.ToC(ref.Real("u", n, -2, 2))
	m.AddField(pf.NewField("conc", n, ref.CopyC(u)))
	names := []string{"velx", "vely", "velz"}[:len(d)]
	var vel [][]complex128
	for a, s := range names {
		v := ref.ToC(ref.Real(s, n, -2, 2))
		if a == 1 && sym.Choose("velocity as", 2) == 1 {
			// a velocity component that is a registered function
			m.RegisterFunction(s, func(i int, b map[string]pf.Brick) complex128 { return v[i] })
		} else {
			m.AddField(pf.NewField(s, n, ref.CopyC(v)))
		}
		vel = append(vel, v)
	}
	ad := pf.Advection{Field: "conc", VelocityFields: names}
	ad.PrepareModel(n, &m, ft)
	m.SyncDerivedFields()
	bricks := map[string]pf.Brick{}
	for _, f := range m.Fields {
		bricks[f.Name] = brick(f.Name, d, f.Data)
	}
	for _, f := range m.DerivedFields {
		bricks[f.Name] = brick(f.Name, d, f.Data)
	}
	out := ref.Cplx("junk", n, -1, 1)
	ad.Construct(bricks)(ft.Freq, 0, out)
	sum := make([]complex128, n)
	for a := range d {
		g := grad(d, a, u)
		for i := range g {
			sum[i] -= vel[a][i] * g[i]
		}
	}
	ref.CloseAll("advection", out, ref.DFT(d, sum, -1), 1e-7)
	for _, f := range m.Fields {
		if f.Name == "conc" {
			ref.CloseAll("field", f.Data, u, 0)
		}
	}
}

// HSquaredGradient: factor times the squared gradient.
func HSquaredGradient() {
	d := small()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	u := ref.ToC(ref.Real("u", n, -2, 2))
	sq := pf.NewSquareGradient("conc", d)
	sym.Close("factor", sq.Factor, 1, 0)
	fac := 1.0
	switch sym.Choose("set", 3) {
	case 1:
		fac = sym.Float("factor", -3, 3)
		sq.Factor = fac
	case 2:
		sq = pf.SquaredGradient{Field: "conc", FT: ft, Factor: 1}
	}
	bricks := map[string]pf.Brick{"conc": brick("conc", d, u)}
	out := ref.Cplx("junk", n, -1, 1)
	sq.Construct(bricks)(ft.Freq, 0, out)
	sum := make([]complex128, n)
	for a := range d {
		g := grad(d, a, u)
		for i := range g {
			sum[i] += complex(fac, 0) * g[i] * g[i]
		}
	}
	ref.CloseAll("squared", out, ref.DFT(d, sum, -1), 1e-6)
	ref.CloseAll("brick", bricks["conc"].(pf.Field).Data, ref.DFT(d, u, -1), 1e-9)
}

// HTensor: second derivatives contracted with a symmetric tensor.
func HTensor() {
	d := grids()
	dim := len(d)
	K := make([]float64, dim*dim)
	for i := 0; i < dim; i++ {
		for j := i; j < dim; j++ {
			K[i*dim+j] = sym.Float(fmt.Sprintf("K%d%d", i, j), -3, 3)
			K[j*dim+i] = K[i*dim+j]
		}
	}
	th := pf.TensorialHessian{Field: "conc", K: K}
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			sym.Close("coeff", th.GetCoeff(i, j), K[i*dim+j], 0)
		}
	}
	hessian(d, K)
}

func hessian(d []int, K []float64) {
	dim, n := len(d), ref.Num(d)
	th := pf.TensorialHessian{Field: "conc", K: K}
	ft := pfutil.NewFFTW(d)
	out := ref.Cplx("junk", n, -1, 1)
	th.Construct(nil)(ft.Freq, 0, out)
	for k := range out {
		f := ref.F(d, k)
		want := 0.0
		for i := 0; i < dim; i++ {
			for j := 0; j < dim; j++ {
				if i != j && (ref.Nyq(d, k, i) || ref.Nyq(d, k, j)) {
					continue // no first derivative of the unpaired frequency
				}
				want -= 4 * math.Pi * math.Pi * f[i] * f[j] * K[i*dim+j]
			}
		}
		sym.CloseC("hessian", out[k], complex(want, 0), 1e-8)
	}
}
