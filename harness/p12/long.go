package p12

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

// long chooses a grid with one long axis and a mode number on it, close to the unpaired one or low.
func long() (d []int, axis, k int) {
	list := [][]int{{1, 101}, {51, 1}, {1, 100}, {64, 1}, {1, 1, 33}, {1, 65, 1}}
	if sym.Thorough() {
		list = append(list, []int{1, 201}, []int{200, 1}, []int{101, 1, 1}, []int{1, 1, 128})
	}
	sym.Bound(fmt.Sprint("long axes: grids ", list, ", one wave of any amplitude and phase, mode 1 or one of the two highest below the unpaired one"))
	d = ref.Grids("long", list)
	for a, n := range d {
		if n > 1 {
			axis = a
		}
	}
	h := (d[axis] - 1) / 2
	k = []int{1, h - 1, h}[sym.Choose("mode", 3)]
	return
}

// wave is a cos + b sin and its derivative.
func wave(d []int, axis, k int, a, b float64) (u, du []complex128) {
	n := ref.Num(d)
	q := make([]int, len(d))
	q[axis] = k
	w := 2 * math.Pi * float64(k) / float64(d[axis])
	for i := 0; i < n; i++ {
		p := ref.Phase(d, q, ref.Crd(d, i), 1)
		u = append(u, complex(a*real(p)+b*imag(p), 0))
		du = append(du, complex(w*(b*real(p)-a*imag(p)), 0))
	}
	return
}

func amplitudes() (float64, float64) { return sym.Float("a", -2, 2), sym.Float("b", -2, 2) }

// HLongGradient: gradients of waves on long axes.
func HLongGradient() {
	d, axis, k := long()
	n := ref.Num(d)
	a, b := amplitudes()
	u, du := wave(d, axis, k, a, b)
	for c := range d {
		g := pf.GradientCalculator{FT: pfutil.NewFFTW(d), Comp: c, KeepNyquist: sym.Choose("keep", 2) == 1}
		out := make([]complex128, n)
		g.Calculate(u, out)
		for i := range out {
			if c == axis {
				sym.CloseC("gradient", out[i], du[i], 1e-8)
			} else {
				sym.CloseC("gradient", out[i], 0, 1e-8)
			}
		}
	}
}

// HLongTerms: the terms on long axes.
func HLongTerms() {
	d, axis, k := long()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	a, b := amplitudes()
	u, du := wave(d, axis, k, a, b)
	hat := ref.DFT(d, u, -1)
	bricks := map[string]pf.Brick{"conc": pf.NewField("conc", n, ref.CopyC(hat))}
	out := make([]complex128, n)
	switch sym.Choose("term", 4) {
	case 0:
		sq := pf.NewSquareGradient("conc", d)
		sq.Construct(bricks)(ft.Freq, 0, out)
		for i := range du {
			du[i] *= du[i]
		}
		// the square of a wave has the modes 0 and 2k only
		want := make([]complex128, n)
		q, q2 := make([]int, len(d)), make([]int, len(d))
		q[axis], q2[axis] = 2*k, -2*k
		w := 2 * math.Pi * float64(k) / float64(d[axis])
		fn := complex(w*w*float64(n), 0)
		want[0] += fn * complex((a*a+b*b)/2, 0)
		// (b cos - a sin)^2 = (a^2+b^2)/2 + (b^2-a^2)/2 cos 2x - ab sin 2x
		want[ref.Node(d, q)] += fn * complex((b*b-a*a)/4, a*b/2)
		want[ref.Node(d, q2)] += fn * complex((b*b-a*a)/4, -a*b/2)
		ref.CloseAll("squared", out, want, 1e-5)
	case 1:
		m := pf.NewModel()
		m.AddField(pf.NewField("conc", n, ref.CopyC(u)))
		dg := pf.DivGrad{Field: "conc", F: func(i int, b map[string]pf.Brick) complex128 { return complex(1+float64(i%3), 0) }}
		dg.PrepareModel(n, &m, ft)
		m.SyncDerivedFields()
		for _, f := range m.DerivedFields {
			bricks[f.Name] = brick(f.Name, d, f.Data)
		}
		dg.Construct(bricks)(ft.Freq, 0, out)
		for i := range du {
			du[i] *= complex(1+float64(i%3), 0)
		}
		ref.CloseAll("divgrad", out, der(d, axis, ref.DFT(d, du, -1), false), 1e-5)
	case 2:
		wl := pf.WeightedLaplacian{Field: "conc", PreFactor: "conc", FT: ft}
		wl.Construct(bricks)(ft.Freq, 0, out)
		w := 2 * math.Pi * float64(k) / float64(d[axis])
		q, q2 := make([]int, len(d)), make([]int, len(d))
		q[axis], q2[axis] = 2*k, -2*k
		fn := complex(-w*w*float64(n), 0)
		want := make([]complex128, n)
		want[0] += fn * complex((a*a+b*b)/2, 0)
		// (a cos + b sin)^2 = (a^2+b^2)/2 + (a^2-b^2)/2 cos 2x + ab sin 2x
		want[ref.Node(d, q)] += fn * complex((a*a-b*b)/4, -a*b/2)
		want[ref.Node(d, q2)] += fn * complex((a*a-b*b)/4, a*b/2)
		ref.CloseAll("weighted", out, want, 1e-5)
	case 3:
		names := []string{"velx", "vely", "velz"}[:len(d)]
		m := pf.NewModel()
		m.AddField(pf.NewField("conc", n, ref.CopyC(u)))
		vel := make([]float64, len(d))
		for c, s := range names {
			vel[c] = sym.Float(s, -2, 2)
			v := make([]complex128, n)
			for i := range v {
				v[i] = complex(vel[c], 0)
			}
			m.AddField(pf.NewField(s, n, v))
			bricks[s] = pf.NewField(s, n, func() []complex128 {
				h := make([]complex128, n)
				h[0] = complex(vel[c]*float64(n), 0)
				return h
			}())
		}
		ad := pf.Advection{Field: "conc", VelocityFields: names}
		ad.PrepareModel(n, &m, ft)
		m.SyncDerivedFields()
		for _, f := range m.DerivedFields {
			bricks[f.Name] = brick(f.Name, d, f.Data)
		}
		ad.Construct(bricks)(ft.Freq, 0, out)
		want := make([]complex128, n)
		for j, h := range der(d, axis, hat, false) {
			want[j] = -h * complex(vel[axis], 0)
		}
		ref.CloseAll("advection", out, want, 1e-5)
	}
}

// HLongHessian: second derivatives on long axes.
func HLongHessian() {
	d := ref.Grids("long", [][]int{{3, 101}, {101, 3}, {64, 2}, {1, 4, 51}, {51, 1, 3}, {2, 51, 3}, {2, 1, 100}})
	dim := len(d)
	K := make([]float64, dim*dim)
	for i := 0; i < dim; i++ {
		for j := i; j < dim; j++ {
			K[i*dim+j] = sym.Float(fmt.Sprintf("K%d%d", i, j), -3, 3)
			K[j*dim+i] = K[i*dim+j]
		}
	}
	hessian(d, K)
}
