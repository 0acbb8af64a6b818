// Package p19 checks charge transport.
package p19

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

func grids() []int {
	list := [][]int{{2, 3}, {3, 2}, {4, 1}, {3, 3}, {2, 2, 2}, {3, 1, 2}, {1, 1, 3}, {1, 4}, {1, 3, 1}}
	if sym.Thorough() {
		list = append(list, []int{4, 3}, []int{2, 5}, []int{4, 4}, []int{3, 2, 2}, []int{2, 2, 3}, []int{3, 3, 2})
	}
	sym.Bound(fmt.Sprint("grids ", list, "; arbitrary charges in [-2,2], conductivity tensors in [-2,2] per node, external field in [-2,2]"))
	return ref.Grids("grid", list)
}

// conductivity is an arbitrary symmetric tensor per node, as tensor and as the documented list.
func conductivity(dim, n int) (full [][3][3]float64, list [][]float64) {
	for i := 0; i < n; i++ {
		var t [3][3]float64
		set := func(a, b int, name string) float64 {
			v := sym.Float(fmt.Sprintf("s_%s%d", name, i), -2, 2)
			t[a][b], t[b][a] = v, v
			return v
		}
		if dim == 2 {
			list = append(list, []float64{set(0, 0, "xx"), set(1, 1, "yy"), set(0, 1, "xy")})
		} else {
			list = append(list, []float64{set(0, 0, "xx"), set(1, 1, "yy"), set(2, 2, "zz"), set(0, 2, "xz"), set(1, 2, "yz"), set(0, 1, "xy")})
		}
		full = append(full, t)
	}
	return
}

// current is the conductivity times external plus induced field.
func current(d []int, rho []complex128, s [][3][3]float64, ext []float64) [][]complex128 {
	n := ref.Num(d)
	rk := ref.DFT(d, rho, -1)
	field := make([][]complex128, len(d))
	for a := range d {
		e := make([]complex128, n)
		for k := 1; k < n; k++ {
			f := ref.F(d, k)
			f2 := 0.0
			for _, x := range f {
				f2 += x * x
			}
			if !ref.Nyq(d, k, a) {
				// the potential solves -(2 pi f)^2 phi = -rho, the field is minus its gradient
				e[k] = -complex(0, f[a]/(2*math.Pi*f2)) * rk[k]
			}
		}
		field[a] = ref.IDFT(d, e)
		for i := range field[a] {
			field[a][i] += complex(ext[a], 0)
		}
	}
	out := make([][]complex128, len(d))
	for a := range d {
		out[a] = make([]complex128, n)
		for i := range out[a] {
			for b := range d {
				out[a][i] += complex(s[i][a][b], 0) * field[b][i]
			}
		}
	}
	return out
}

// HTerm: the term is minus the divergence of the current.
func HTerm() {
	d := grids()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	rho := ref.ToC(ref.Real("rho", n, -2, 2))
	ext := ref.Real("E", len(d), -2, 2)
	full, list := conductivity(len(d), n)
	ct := pf.ChargeTransport{Field: "charge", ExternalField: ext, FT: ft, Conductivity: func(i int) []float64 { return append([]float64(nil), list[i]...) }}
	hat := ref.DFT(d, rho, -1)
	bricks := map[string]pf.Brick{"charge": pf.NewField("charge", n, ref.CopyC(hat)), "other": pf.NewField("other", n, nil)}
	out := ref.Cplx("junk", n, -1, 1)
	j := current(d, rho, full, ext)
	want := make([]complex128, n)
	for a := range d {
		jk := ref.DFT(d, j[a], -1)
		for k := range jk {
			if !ref.Nyq(d, k, a) {
				want[k] -= complex(0, 2*math.Pi*ref.F(d, k)[a]) * jk[k]
			}
		}
	}
	term := ct.Construct(bricks)
	term(ft.Freq, 0, out)
	ref.CloseAll("term", out, want, 1e-7)
	ref.CloseAll("charge", bricks["charge"].(pf.Field).Data, hat, 0)
	if sym.Choose("again", 2) == 1 {
		term(ft.Freq, 1, out)
		ref.CloseAll("again", out, want, 1e-7)
	}
}

// HCurrent: the reported current.
func HCurrent() {
	d := grids()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	rho := ref.ToC(ref.Real("rho", n, -2, 2))
	ext := ref.Real("E", len(d), -2, 2)
	full, list := conductivity(len(d), n)
	ct := pf.ChargeTransport{Field: "charge", ExternalField: ext, FT: ft, Conductivity: func(i int) []float64 { return append([]float64(nil), list[i]...) }}
	in := ref.CopyC(rho)
	realspace := sym.Choose("realspace", 2) == 1
	if !realspace {
		in = ref.DFT(d, rho, -1)
	}
	b := pf.NewField("density", n, ref.CopyC(in))
	got := ct.Current(b, n, realspace)
	sym.EqInt("components", len(got), len(d))
	for a, w := range current(d, rho, full, ext) {
		sym.EqInt("nodes", len(got[a]), n)
		for i := range w {
			sym.Close("current", got[a][i], real(w[i]), 1e-8)
		}
	}
	ref.CloseAll("density", b.Data, in, 0)
}

// HRelax: uniform isotropic conductivity.
func HRelax() {
	list := [][]int{{3, 3}, {1, 5}, {3, 1, 3}, {2, 3}, {4, 2}}
	d := ref.Grids("grid", list)
	sym.Bound(fmt.Sprint("grids ", list, "; uniform isotropic conductivity in [-2,2], arbitrary charges and external field; on the axes of even length modes other than the unpaired ones"))
	n := ref.Num(d)
	ft := pfutil.NewFFTW(d)
	rho := ref.ToC(ref.Real("rho", n, -2, 2))
	ext := ref.Real("E", len(d), -2, 2)
	s := sym.Float("sigma", -2, 2)
	ct := pf.ChargeTransport{Field: "charge", ExternalField: ext, FT: ft, Conductivity: func(i int) []float64 {
		if len(d) == 2 {
			return []float64{s, s, 0}
		}
		return []float64{s, s, s, 0, 0, 0}
	}}
	hat := ref.DFT(d, rho, -1)
	out := make([]complex128, n)
	ct.Construct(map[string]pf.Brick{"charge": pf.NewField("charge", n, ref.CopyC(hat))})(ft.Freq, 0, out)
	sym.CloseC("total", out[0], 0, 1e-8)
	for k := 1; k < n; k++ {
		if !ref.AnyNyq(d, k) {
			sym.CloseC("relaxation", out[k], complex(-s, 0)*hat[k], 1e-7)
		}
	}
}

// HLong: waves of charge on long axes.
func HLong() {
	list := [][]int{{1, 101}, {51, 1}, {1, 100}, {64, 1}, {1, 1, 33}, {1, 65, 1}}
	sym.Bound(fmt.Sprint("long axes: grids ", list, ", one wave of any amplitude and phase, mode 1 or one of the two highest below the unpaired one, a given conductivity that varies in space, any external field"))
	d := ref.Grids("long", list)
	axis := 0
	for a, n := range d {
		if n > 1 {
			axis = a
		}
	}
	h := (d[axis] - 1) / 2
	q := make([]int, len(d))
	q[axis] = []int{1, h - 1, h}[sym.Choose("mode", 3)]
	n := ref.Num(d)
	a, b := sym.Float("a", -2, 2), sym.Float("b", -2, 2)
	ext := ref.Real("E", len(d), -2, 2)
	rho := make([]complex128, n)
	j := make([][]complex128, len(d))
	kv := 2 * math.Pi * float64(q[axis]) / float64(d[axis])
	sigma := func(i int) []float64 {
		v := float64(i%5) / 4
		if len(d) == 2 {
			return []float64{1 + v, 2 - v, 0.5 * v}
		}
		return []float64{1 + v, 2 - v, 1.5, 0.25, -0.5 * v, 0.5 * v}
	}
	idx := [][]int{{0, 2}, {2, 1}}
	if len(d) == 3 {
		idx = [][]int{{0, 5, 3}, {5, 1, 4}, {3, 4, 2}}
	}
	for i := range rho {
		p := ref.Phase(d, q, ref.Crd(d, i), 1)
		rho[i] = complex(a*real(p)+b*imag(p), 0)
		s := sigma(i)
		for c := range d {
			v := 0.0
			for e := range d {
				f := ext[e]
				if e == axis {
					// phi = rho / k^2, E = -grad phi
					f -= (b*real(p) - a*imag(p)) / kv
				}
				v += s[idx[c][e]] * f
			}
			j[c] = append(j[c], complex(v, 0))
		}
	}
	ft := pfutil.NewFFTW(d)
	ct := pf.ChargeTransport{Field: "charge", ExternalField: ext, FT: ft, Conductivity: sigma}
	if sym.Choose("what", 2) == 0 {
		got := ct.Current(pf.NewField("density", n, ref.CopyC(rho)), n, true)
		for c := range d {
			for i := range j[c] {
				sym.Close("current", got[c][i], real(j[c][i]), 1e-6)
			}
		}
		return
	}
	hat := ref.DFT(d, rho, -1)
	out := make([]complex128, n)
	ct.Construct(map[string]pf.Brick{"charge": pf.NewField("charge", n, hat)})(ft.Freq, 0, out)
	jk := ref.DFT(d, j[axis], -1)
	for k := range jk {
		want := complex(0, 0)
		if !ref.Nyq(d, k, axis) {
			want = -complex(0, 2*math.Pi*ref.F(d, k)[axis]) * jk[k]
		}
		sym.CloseC("term", out[k], want, 1e-5)
	}
}
