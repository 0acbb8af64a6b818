package p02

import (
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

func grid() []int {
	l := [][]int{{3, 4}, {4, 3}, {4, 4}, {1, 4}, {5, 1}, {2, 3, 4}, {4, 2, 3}, {2, 2, 2}, {3, 2, 1}}
	sym.Bound("grids 3x4, 4x3, 4x4, 1x4, 5x1, 2x3x4, 4x2x3, 2x2x2, 3x2x1 (thorough: also 5x6, 6x4, 3x4x5, 4x4x2); arbitrary complex fields with entries in [-2,2]; tolerance 1e-9")
	if sym.Thorough() {
		l = append(l, []int{5, 6}, []int{6, 4}, []int{3, 4, 5}, []int{4, 4, 2})
	}
	return ref.Grids("grid", l)
}

func HForward() {
	d := grid()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(append([]int(nil), d...))
	in := ref.Cplx("z", n, -2, 2)
	data := ref.CopyC(in)
	out := ft.FFT(data)
	want := ref.DFT(d, in, -1)
	ref.CloseAll("fft", out, want, 1e-9)
	ref.CloseAll("inplace", data, want, 1e-9)
	// the reported frequency labels the output
	for k := 0; k < n; k++ {
		f := ft.Freq(k)
		sym.EqInt("rank", len(f), len(d))
		rf := ref.F(d, k)
		for a := range f {
			sym.Close("freq", f[a], rf[a], 1e-12)
		}
	}
	back := ft.IFFT(out)
	for k := range back {
		back[k] /= complex(float64(n), 0)
	}
	ref.CloseAll("roundtrip", back, in, 1e-9)
}

func HInverse() {
	d := grid()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(append([]int(nil), d...))
	in := ref.Cplx("z", n, -2, 2)
	data := ref.CopyC(in)
	out := ft.IFFT(data)
	ref.CloseAll("ifft", out, ref.DFT(d, in, 1), 1e-9)
	// a second, independent transform is not disturbed by the first
	in2 := ref.Cplx("y", n, -2, 2)
	o2 := ft.FFT(ref.CopyC(in2))
	ref.CloseAll("fft2", o2, ref.DFT(d, in2, -1), 1e-9)
	ref.CloseAll("kept", out, ref.DFT(d, in, 1), 1e-9)
}

func HRealConj() {
	d := grid()
	n := ref.Num(d)
	ft := pfutil.NewFFTW(append([]int(nil), d...))
	out := ft.FFT(ref.ToC(ref.Real("x", n, -2, 2)))
	for k := range out {
		c := ft.ConjugateNode(k)
		sym.Assert("range", c >= 0 && c < n)
		sym.CloseC("conj", out[c], complex(real(out[k]), -imag(out[k])), 1e-9)
		fk, fc := ft.Freq(k), ft.Freq(c)
		for a := range fk {
			s := fk[a] + fc[a] // zero, or one at the unpaired frequency
			sym.Assert("neg", s > -1e-12 && s < 1e-12 || s > 1-1e-12 && s < 1+1e-12 && fk[a] == 0.5)
		}
	}
}

func wrapper(nd, max int) (*pfutil.FFTWWrapper, []int, int) {
	d := []int{sym.Int("d0", 1, max), sym.Int("d1", 1, max)}
	if nd == 3 {
		d = append(d, sym.Int("d2", 1, max))
	}
	k := sym.Int("node", 0, max*max*max)
	n := d[0] * d[1]
	if nd == 3 {
		n *= d[2]
	}
	sym.Assume(k < n)
	return &pfutil.FFTWWrapper{Dimensions: d}, d, k
}

// conjugate node labels for every size
func conjLabel(nd, max int) {
	fw, d, k := wrapper(nd, max)
	c := fw.ConjugateNode(k)
	x, y := pfutil.Pos(d, k), pfutil.Pos(d, c)
	for a := range d {
		sym.Assert("negated", x[a]+y[a] == d[a] || x[a] == 0 && y[a] == 0)
	}
	sym.EqInt("involution", fw.ConjugateNode(c), k)
}

func HConjLabel2() {
	sym.Bound("conjugate labels: 2D sizes 1..32, every node")
	conjLabel(2, 32)
}

func HConjLabel3() {
	sym.Bound("conjugate labels: 3D sizes 1..8, every node")
	conjLabel(3, 8)
}

// frequency labels for every axis length
func freqLabel(nd, m0, m1, m2 int) {
	max := []int{m0, m1, m2}[:nd]
	d := make([]int, nd)
	n := 1
	for a := range d {
		d[a] = sym.Concrete(sym.Int("d", 1, max[a]))
		n *= d[a]
	}
	fw := &pfutil.FFTWWrapper{Dimensions: d}
	k := sym.Int("node", 0, n-1)
	f := fw.Freq(k)
	x := pfutil.Pos(d, k)
	for a := range f {
		sym.Assert("range", f[a] > -0.5 && f[a] <= 0.5)
		m := f[a] * float64(d[a])
		q := float64(x[a])
		if 2*x[a] > d[a] {
			q -= float64(d[a])
		}
		sym.Close("multiple", m, q, 1e-9)
	}
}

func HFreqLabel2() {
	sym.Bound("frequency labels: 2D sizes 1..12 x 1..12, every node")
	freqLabel(2, 12, 12, 0)
}

func HFreqLabel3() {
	sym.Bound("frequency labels: 3D sizes 1..4 x 1..4 x 1..7, every node")
	freqLabel(3, 4, 4, 7)
}

// conjugate and frequency labels of long axes
func large() []int {
	all := [][]int{{33, 2}, {3, 64}, {100, 3}, {2, 127}, {129, 2}, {1, 1000}, {1024, 2},
		{64, 3, 2}, {3, 100, 2}, {2, 3, 129}, {1000, 1, 2}, {128, 128, 128}}
	return all[sym.Choose("grid", len(all))]
}

func HConjLarge() {
	sym.Bound("conjugate labels of long axes: grids 33x2, 3x64, 100x3, 2x127, 129x2, 1x1000, 1024x2, 64x3x2, 3x100x2, 2x3x129, 1000x1x2, 128x128x128, every node")
	d := large()
	fw := &pfutil.FFTWWrapper{Dimensions: d}
	n := 1
	for _, m := range d {
		n *= m
	}
	k := sym.Int("node", 0, n-1)
	c := fw.ConjugateNode(k)
	x, y := pfutil.Pos(d, k), pfutil.Pos(d, c)
	for a := range d {
		sym.Assert("negated", x[a]+y[a] == d[a] || x[a] == 0 && y[a] == 0)
	}
	sym.EqInt("involution", fw.ConjugateNode(c), k)
}

func HFreqLarge() {
	sym.Bound("frequency labels of long axes: the same grids, every node")
	d := large()
	fw := &pfutil.FFTWWrapper{Dimensions: d}
	n := 1
	for _, m := range d {
		n *= m
	}
	k := sym.Int("node", 0, n-1)
	f := fw.Freq(k)
	x := pfutil.Pos(d, k)
	for a := range f {
		sym.Assert("range", f[a] > -0.5 && f[a] <= 0.5)
		q := float64(x[a])
		if 2*x[a] > d[a] {
			q -= float64(d[a])
		}
		sym.Close("multiple", f[a]*float64(d[a]), q, 1e-9)
	}
}
