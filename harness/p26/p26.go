// Package p26 checks Miller families and reciprocal lattices.
package p26

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/zverif/sym"
	"gonum.org/v1/gonum/mat"
)

const rangeM = 1000

// miller is an arbitrary Miller index: ordered magnitudes in any arrangement with any signs.
func miller() (pfc.Miller, [3]int) {
	sym.Bound("arbitrary indices with magnitudes up to 3000: any arrangement, signs, zeros and equal magnitudes, split by case with the magnitudes and their differences arbitrary in [1,1000]")
	step := func(name string) int {
		if sym.Bool(name + "zero") {
			return 0
		}
		return sym.Int(name, 1, rangeM)
	}
	p := step("p")
	q := p + step("q")
	r := q + step("r")
	x := [3]int{p, q, r}
	perm := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("order", 6)]
	x = [3]int{x[perm[0]], x[perm[1]], x[perm[2]]}
	signs := sym.Choose("signs", 8)
	for a := range x {
		if signs>>uint(a)&1 == 1 {
			x[a] = -x[a]
		}
	}
	return pfc.Miller{H: x[0], K: x[1], L: x[2]}, x
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// family is the number of signed permutations, in total and with the last index zero.
func family(x [3]int) (int, int) {
	sign, zeros := 1, 0
	for _, v := range x {
		if v != 0 {
			sign *= 2
		} else {
			zeros++
		}
	}
	a, b, c := abs(x[0]), abs(x[1]), abs(x[2])
	perm := 6
	switch {
	case a == b && b == c:
		perm = 1
	case a == b || b == c || a == c:
		perm = 3
	}
	// the zeros are spread evenly over the three places
	return sign * perm, sign * perm * zeros / 3
}

func isPerm(m pfc.Miller, x [3]int) bool {
	perms := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	a := [3]int{abs(x[0]), abs(x[1]), abs(x[2])}
	b := [3]int{abs(m.H), abs(m.K), abs(m.L)}
	for _, p := range perms {
		if b[0] == a[p[0]] && b[1] == a[p[1]] && b[2] == a[p[2]] {
			return true
		}
	}
	return false
}

// HFamily: the equivalent planes are the signed permutations, each once.
func HFamily() {
	m, x := miller()
	got := pfc.EquivalentMiller(m)
	n, _ := family(x)
	sym.EqInt("count", len(got), n)
	for i := range got {
		sym.Assert("permutation", isPerm(got[i], x))
		for j := 0; j < i; j++ {
			sym.Assert("once", !got[i].Equal(got[j]))
		}
	}
}

// HSigns: the variants without permutations.
func HSigns() {
	m, x := miller()
	got := pfc.EquivalentMillerNoPermutations(m)
	n := 1
	for _, v := range x {
		if v != 0 {
			n *= 2
		}
	}
	sym.EqInt("count", len(got), n)
	for i := range got {
		for a, v := range x {
			g := got[i].At(a)
			sym.Assert("sign", g == v || g == -v)
		}
		for j := 0; j < i; j++ {
			sym.Assert("once", !got[i].Equal(got[j]))
		}
	}
}

// HCount: the reported counts.
func HCount() {
	m, x := miller()
	n3, n2 := family(x)
	sym.EqInt("three", pfc.NumEquivalent3D(m), n3)
	sym.EqInt("three", pfc.NumEquivalent(m, 3), n3)
	sym.EqInt("two", pfc.NumEquivalent(m, 2), n2)
	sym.EqInt("two", pfc.NumEquivalent2D(m), n2)
}

// HEqual: comparison and access.
func HEqual() {
	m, x := miller()
	y := [3]int{sym.Int("h2", -rangeM, rangeM), sym.Int("k2", -rangeM, rangeM), sym.Int("l2", -rangeM, rangeM)}
	eq := m.Equal(pfc.Miller{H: y[0], K: y[1], L: y[2]})
	sym.Assert("equal", eq == (x[0] == y[0] && x[1] == y[1] && x[2] == y[2]))
	for a := range x {
		sym.EqInt("at", m.At(a), x[a])
	}
}

// cell is an arbitrary cell close to a scaled identity, or a built-in one.
func cell() (pfc.Cell, int) {
	if sym.Bool("arbitrary") {
		return arb(3), 3
	}
	return cell2()
}

func cell2() (pfc.Cell, int) {
	if sym.Bool("flat") {
		return arb(2), 2
	}
	a := sym.Float("a", 0.5, 8)
	switch sym.Choose("lattice", 5) {
	case 0:
		return pfc.SC2D(a), 2
	case 1:
		return pfc.SC3D(a), 3
	case 2:
		return pfc.FCC(a), 3
	case 3:
		return pfc.BCC(a), 3
	}
	return pfc.Triangular2D(a), 2
}

// arb is any cell with dominant diagonal, its vectors in any order and with any sign.
func arb(dim int) pfc.Cell {
	sym.Bound("arbitrary cells with (up to the order and direction of the vectors) diagonal in [1,3] and off-diagonal elements in [-0.2,0.2], and the five built-in lattices with any constant in [0.5,8]; arbitrary Miller indices in [-20,20]")
	c := mat.NewDense(dim, dim, nil)
	shift := sym.Choose("order", dim)
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			v := 0.0
			if i == j {
				v = sym.Float(fmt.Sprintf("c%d%d", i, j), 1, 3)
			} else {
				v = sym.Float(fmt.Sprintf("c%d%d", i, j), -0.2, 0.2)
			}
			c.Set(i, (j+shift)%dim, v)
		}
	}
	if sym.Bool("flip") {
		for i := 0; i < dim; i++ {
			c.Set(i, 0, -c.At(i, 0))
		}
	}
	return pfc.Cell{CellVec: c}
}

func dot(a, b mat.Matrix, i, j, dim int) float64 {
	s := 0.0
	for k := 0; k < dim; k++ {
		s += a.At(k, i) * b.At(k, j)
	}
	return s
}

// HReciprocal: a_i . b_j = 2 pi delta_ij and plane vectors.
func HReciprocal() {
	c, dim := cell()
	keep := mat.DenseCopyOf(c.CellVec)
	r := c.Reciprocal()
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			want := 0.0
			if i == j {
				want = 2 * math.Pi
			}
			sym.Close("duality", dot(keep, r.CellVec, i, j, dim), want, 1e-8)
			sym.Close("cell", c.CellVec.At(i, j), keep.At(i, j), 0)
		}
	}
	m := pfc.Miller{H: sym.Int("h", -20, 20), K: sym.Int("k", -20, 20), L: sym.Int("l", -20, 20)}
	v := r.HKLVector(m)
	sym.EqInt("length", len(v), dim)
	idx := []int{m.H, m.K, m.L}
	for i := 0; i < dim; i++ {
		s := 0.0
		for j := 0; j < dim; j++ {
			s += float64(idx[j]) * r.CellVec.At(i, j)
		}
		sym.Close("plane", v[i], s, 1e-7)
	}
}

// HChange: first order changes of the reciprocal cell, from the derivative of the duality relation.
func HChange() {
	kind := sym.Choose("kind", 2)
	c, dim := pfc.Cell{}, 3
	if kind == 0 {
		c = arb(3)
	} else {
		c, dim = cell2()
	}
	exact := kind == 1
	sym.Bound("arbitrary cell changes in [-1,1]")
	r := c.Reciprocal()
	d := mat.NewDense(dim, dim, nil)
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			d.Set(i, j, sym.Float(fmt.Sprintf("d%d%d", i, j), -1, 1))
		}
	}
	keep := mat.DenseCopyOf(d)
	before := mat.DenseCopyOf(r.CellVec)
	ch := r.CellChange(d)
	// d(a_i . b_j) = da_i . b_j + a_i . db_j = 0
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			if exact {
				sym.Close("derivative", dot(keep, before, i, j, dim)+dot(c.CellVec, ch, i, j, dim), 0, 1e-7)
			}
			// solved for db with the duality relation
			s := 0.0
			for k := 0; k < dim; k++ {
				for l := 0; l < dim; l++ {
					s -= before.At(i, k) * keep.At(l, k) * before.At(l, j)
				}
			}
			sym.Close("solved", ch.At(i, j), s/(2*math.Pi), 1e-7)
			sym.Close("reciprocal", r.CellVec.At(i, j), before.At(i, j), 0)
			sym.Close("change", d.At(i, j), keep.At(i, j), 0)
		}
	}
	m := pfc.Miller{H: sym.Int("h", -20, 20), K: sym.Int("k", -20, 20), L: sym.Int("l", -20, 20)}
	v := r.ChangeHKLVector(m, d)
	idx := []int{m.H, m.K, m.L}
	for i := 0; i < dim; i++ {
		s := 0.0
		for j := 0; j < dim; j++ {
			s += float64(idx[j]) * ch.At(i, j)
		}
		sym.Close("plane change", v[i], s, 1e-7)
	}
}

// HVolume: volumes of cells.
func HVolume() {
	sym.Bound("the five built-in lattices with any constant in [0.5,8]; arbitrary cells as above")
	a := sym.Float("a", 0.5, 8)
	switch sym.Choose("lattice", 7) {
	case 0:
		c := pfc.SC2D(a)
		sym.Close("volume", c.Volume(), a*a, 1e-8)
	case 1:
		c := pfc.SC3D(a)
		sym.Close("volume", c.Volume(), a*a*a, 1e-8)
	case 2:
		c := pfc.FCC(a)
		sym.Close("volume", c.Volume(), a*a*a/4, 1e-8)
	case 3:
		c := pfc.BCC(a)
		sym.Close("volume", c.Volume(), a*a*a/2, 1e-8)
	case 4:
		c := pfc.Triangular2D(a)
		sym.Close("volume", c.Volume(), a*a/2, 1e-8)
	case 5:
		c := arb(2)
		m := c.CellVec
		sym.Close("volume", c.Volume(), m.At(0, 0)*m.At(1, 1)-m.At(0, 1)*m.At(1, 0), 1e-8)
	case 6:
		c := arb(3)
		m := c.CellVec
		x := [3]float64{m.At(1, 0)*m.At(2, 1) - m.At(2, 0)*m.At(1, 1), m.At(2, 0)*m.At(0, 1) - m.At(0, 0)*m.At(2, 1), m.At(0, 0)*m.At(1, 1) - m.At(1, 0)*m.At(0, 1)}
		sym.Close("volume", c.Volume(), x[0]*m.At(0, 2)+x[1]*m.At(1, 2)+x[2]*m.At(2, 2), 1e-8)
	}
}

// HVectors: the built-in lattices are generated by their lattice points.
func HVectors() {
	sym.Bound("the five built-in lattices with any constant in [0.5,8]")
	a := sym.Float("a", 0.5, 8)
	var c pfc.Cell
	k := sym.Choose("lattice", 5)
	switch k {
	case 0:
		c = pfc.SC2D(a)
	case 1:
		c = pfc.SC3D(a)
	case 2:
		c = pfc.FCC(a)
	case 3:
		c = pfc.BCC(a)
	case 4:
		c = pfc.Triangular2D(a)
	}
	_, n := c.CellVec.Dims()
	for j := 0; j < n; j++ {
		s := 0.0
		for i := 0; i < n; i++ {
			s += c.CellVec.At(i, j) * c.CellVec.At(i, j)
		}
		switch {
		case k < 2 || k == 4 && j == 0:
			sym.Close("length", s, a*a, 1e-8)
		case k == 2 || k == 4:
			sym.Close("length", s, a*a/2, 1e-8)
		case k == 3:
			sym.Close("length", s, 3*a*a/4, 1e-8)
		}
	}
}

// HPlane: plane vectors and their changes for given cells without symmetry, arbitrary indices and changes.
func HPlane() {
	sym.Bound("plane vectors also on three given cells without symmetry, indices in [-1000,1000]")
	var v []float64
	dim := 3
	switch sym.Choose("cell", 4) {
	case 0:
		dim, v = 2, []float64{1.5, 0.75, 0, 2}
	case 1:
		dim, v = 2, []float64{-0.25, 1.25, 2, 0.5}
	case 2:
		v = []float64{2, 0.5, -0.25, 0.125, 1.5, 0.75, 0, -0.5, 1.25}
	case 3:
		v = []float64{0, 1, 0, 0, 0.5, 2, -1.5, 0, 0.25}
	}
	c := pfc.Cell{CellVec: mat.NewDense(dim, dim, v)}
	r := c.Reciprocal()
	m := pfc.Miller{H: sym.Int("h", -rangeM, rangeM), K: sym.Int("k", -rangeM, rangeM), L: sym.Int("l", -rangeM, rangeM)}
	idx := []int{m.H, m.K, m.L}
	g := r.HKLVector(m)
	// a_i . G = 2 pi h_i
	for i := 0; i < dim; i++ {
		s := 0.0
		for k := 0; k < dim; k++ {
			s += v[k*dim+i] * g[k]
		}
		sym.Close("projection", s, 2*math.Pi*float64(idx[i]), 1e-7)
	}
	d := mat.NewDense(dim, dim, nil)
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			d.Set(i, j, 0.01*float64(1+3*i-2*j+i*j))
		}
	}
	// da_i . G + a_i . dG = 0
	dg := r.ChangeHKLVector(m, d)
	for i := 0; i < dim; i++ {
		s := 0.0
		for k := 0; k < dim; k++ {
			s += v[k*dim+i]*dg[k] + d.At(k, i)*g[k]
		}
		sym.Close("change", s, 0, 1e-6)
	}
}

// HDensity compares the density of a lattice plane with its definition: the plane with coprime indices n has one lattice
// point per area |n|, and indices with a common divisor name the same plane.
func HDensity() {
	sym.Bound("planes whose indices are one to three times coprime indices: two of them any pair listed, the third any number to 12, any arrangement")
	pairs := [][3]int{{0, 0, 0}, {0, 1, 1}, {1, -1, 1}, {2, 0, 2}, {0, -3, 3}, {2, 3, 1}, {-2, 2, 2}, {-3, 3, 3}, {-1, 3, 1}}
	p := pairs[sym.Choose("pair", len(pairs))]
	// any third index without a common divisor with the two
	l := sym.Int("l", -4, 4)
	switch p[2] {
	case 0:
		l = 1 - 2*sym.Choose("sign", 2)
	case 2:
		l = 2*l + 1
	case 3:
		l = 3*l + 1 - 2*sym.Choose("sign", 2)
	}
	n := [][3]int{{p[0], p[1], l}, {p[0], l, p[1]}, {l, p[0], p[1]}}[sym.Choose("place", 3)]
	g := 1 + sym.Choose("divisor", 3)
	d := pfc.CubicUnitCellDensity(pfc.Miller{H: g * n[0], K: g * n[1], L: g * n[2]})
	sym.Assert("density sign", d > 0)
	norm := float64(n[0]*n[0] + n[1]*n[1] + n[2]*n[2])
	sym.Close("density", d*d*norm, 1, 1e-9)
}
