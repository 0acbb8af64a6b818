// Package ref holds the reference mathematics the harnesses compare with.
package ref

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/zverif/sym"
)

// Num is the number of nodes.
func Num(d []int) int {
	n := 1
	for _, x := range d {
		n *= x
	}
	return n
}

// Crd lists the coordinates of a node: second axis fastest, then first, then third.
func Crd(d []int, k int) []int {
	c := k % d[1]
	k /= d[1]
	r := k % d[0]
	if len(d) == 2 {
		return []int{r, c}
	}
	return []int{r, c, k / d[0]}
}

// Node is the inverse of Crd, with periodic wrapping.
func Node(d []int, x []int) int {
	m := func(a int) int { return ((x[a] % d[a]) + d[a]) % d[a] }
	k := m(0)*d[1] + m(1)
	if len(d) == 3 {
		k += m(2) * d[0] * d[1]
	}
	return k
}

// Signed is the signed mode number of index q on an axis of length n, in (-n/2, n/2].
func Signed(q, n int) int {
	if 2*q > n {
		return q - n
	}
	return q
}

// Modes are the signed mode numbers of a node.
func Modes(d []int, k int) []int {
	x := Crd(d, k)
	for a := range x {
		x[a] = Signed(x[a], d[a])
	}
	return x
}

// F is the frequency vector of a node.
func F(d []int, k int) []float64 {
	m := Modes(d, k)
	f := make([]float64, len(d))
	for a := range m {
		f[a] = float64(m[a]) / float64(d[a])
	}
	return f
}

// Nyq tells whether mode k is the unpaired highest frequency on axis a.
func Nyq(d []int, k, a int) bool { return 2*Crd(d, k)[a] == d[a] }

// AnyNyq tells whether the mode is unpaired on any axis of even length.
func AnyNyq(d []int, k int) bool {
	for a := range d {
		if Nyq(d, k, a) {
			return true
		}
	}
	return false
}

// K2 is the squared wave vector.
func K2(d []int, k int) float64 {
	s := 0.0
	for _, f := range F(d, k) {
		s += f * f
	}
	return 4 * math.Pi * math.Pi * s
}

// Conj is the node of the negated frequency.
func Conj(d []int, k int) int {
	x := Crd(d, k)
	for a := range x {
		x[a] = -x[a]
	}
	return Node(d, x)
}

func cs(num, den int) (float64, float64) {
	num = ((num % den) + den) % den
	switch {
	case num == 0:
		return 1, 0
	case 2*num == den:
		return -1, 0
	case 4*num == den:
		return 0, 1
	case 4*num == 3*den:
		return 0, -1
	}
	x := 2 * math.Pi * float64(num) / float64(den)
	return math.Cos(x), math.Sin(x)
}

// Phase is exp(sign*2*pi*i*q.x) for mode q and point x.
func Phase(d []int, q, x []int, sign int) complex128 {
	den, num := 1, 0
	for a := range d {
		den *= d[a]
	}
	for a := range d {
		num += q[a] * x[a] % d[a] * (den / d[a])
	}
	c, s := cs(sign*num, den)
	return complex(c, s)
}

// DFT is the Fourier sum by its definition (sign -1 forward, +1 inverse, unnormalised).
func DFT(d []int, data []complex128, sign int) []complex128 {
	n := Num(d)
	out := make([]complex128, n)
	for k := 0; k < n; k++ {
		q := Crd(d, k)
		for j := 0; j < n; j++ {
			out[k] += data[j] * Phase(d, q, Crd(d, j), sign)
		}
	}
	return out
}

// IDFT is the normalised inverse.
func IDFT(d []int, data []complex128) []complex128 {
	out := DFT(d, data, 1)
	for k := range out {
		out[k] /= complex(float64(len(out)), 0)
	}
	return out
}

// Real makes an arbitrary real field.
func Real(name string, n int, lo, hi float64) []float64 {
	f := make([]float64, n)
	for k := range f {
		f[k] = sym.Float(fmt.Sprintf("%s%d", name, k), lo, hi)
	}
	return f
}

// Cplx makes an arbitrary complex field.
func Cplx(name string, n int, lo, hi float64) []complex128 {
	f := make([]complex128, n)
	for k := range f {
		f[k] = complex(sym.Float(fmt.Sprintf("%sr%d", name, k), lo, hi), sym.Float(fmt.Sprintf("%si%d", name, k), lo, hi))
	}
	return f
}

// ToC converts to complex.
func ToC(f []float64) []complex128 {
	c := make([]complex128, len(f))
	for k := range f {
		c[k] = complex(f[k], 0)
	}
	return c
}

// CopyC copies.
func CopyC(f []complex128) []complex128 { return append([]complex128(nil), f...) }

// CloseAll compares two complex slices.
func CloseAll(label string, got, want []complex128, tol float64) {
	sym.EqInt(label+".len", len(got), len(want))
	for k := range want {
		if k < len(got) {
			sym.CloseC(label, got[k], want[k], tol)
		}
	}
}

// Grids is a list of domain sizes: odd, even and unequal sides.
func Grids(name string, list [][]int) []int {
	d := list[sym.Choose(name, len(list))]
	return append([]int(nil), d...)
}
