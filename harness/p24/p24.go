// Package p24 checks the stiffness tensors and their rotations.
package p24

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/zverif/sym"
	"gonum.org/v1/gonum/mat"
)

const tol = 1e-9

func dl(i, j int) float64 {
	if i == j {
		return 1
	}
	return 0
}

// each calls f with all index quadruples.
func each(f func(i, j, k, l int)) {
	for q := 0; q < 81; q++ {
		f(q/27, q/9%3, q/3%3, q%3)
	}
}

func symmetries(label string, c *elasticity.Rank4, major bool) {
	each(func(i, j, k, l int) {
		sym.Close(label+"minor", c.At(i, j, k, l), c.At(j, i, k, l), tol)
		sym.Close(label+"minor", c.At(i, j, k, l), c.At(i, j, l, k), tol)
		if major {
			sym.Close(label+"major", c.At(i, j, k, l), c.At(k, l, i, j), tol)
		}
	})
}

// HIsotropic: bulk modulus and Poisson ratio in every position.
func HIsotropic() {
	sym.Bound("bulk modulus in [-10,200], Poisson ratio in [-0.9,0.49]")
	b, nu := sym.Float("bulk", -10, 200), sym.Float("poisson", -0.9, 0.49)
	// tensile tests: lambda = 3 B nu/(1+nu), mu = 3 B (1-2 nu)/(2 (1+nu))
	lam := 3 * b * nu / (1 + nu)
	mu := 3 * b * (1 - 2*nu) / (2 * (1 + nu))
	sym.Close("shear", elasticity.Shear(b, nu), mu, 1e-8)
	c := elasticity.Isotropic(b, nu)
	symmetries("", &c, true)
	tr := 0.0
	each(func(i, j, k, l int) {
		sym.Close("constants", c.At(i, j, k, l), lam*dl(i, j)*dl(k, l)+mu*(dl(i, k)*dl(j, l)+dl(i, l)*dl(j, k)), 1e-7)
		if i == j && k == l {
			tr += c.At(i, j, k, l)
		}
	})
	sym.Close("bulk", tr, 9*b, 1e-7)
}

// HCubic: the three cubic constants in every position.
func HCubic() {
	sym.Bound("the three cubic constants arbitrary in [-200,200]")
	c11, c12, c44 := sym.Float("c11", -200, 200), sym.Float("c12", -200, 200), sym.Float("c44", -200, 200)
	c := elasticity.CubicMaterial(c11, c12, c44)
	symmetries("", &c, true)
	each(func(i, j, k, l int) {
		want := 0.0
		switch {
		case i == j && k == l && i == k:
			want = c11
		case i == j && k == l:
			want = c12
		case i == k && j == l, i == l && j == k:
			want = c44
		}
		sym.Close("constants", c.At(i, j, k, l), want, 0)
	})
}

// voigt is the position of an index pair in the order 11, 22, 33, 23, 13, 12.
func voigt(i, j int) int {
	if i == j {
		return i
	}
	return 6 - i - j
}

// HVoigt: a flat Voigt matrix.
func HVoigt() {
	sym.Bound("all 36 Voigt constants arbitrary in [-200,200], symmetric or not")
	v := make([]float64, 36)
	symmetric := sym.Bool("symmetric")
	for p := 0; p < 6; p++ {
		for q := 0; q < 6; q++ {
			if symmetric && q < p {
				v[6*p+q] = v[6*q+p]
			} else {
				v[6*p+q] = sym.Float(fmt.Sprintf("v%d%d", p, q), -200, 200)
			}
		}
	}
	keep := append([]float64(nil), v...)
	c := elasticity.FromFlatVoigt(v)
	symmetries("", &c, symmetric)
	each(func(i, j, k, l int) {
		sym.Close("constants", c.At(i, j, k, l), keep[6*voigt(i, j)+voigt(k, l)], 0)
	})
	for i := range v {
		sym.Close("input", v[i], keep[i], 0)
	}
}

// arb is an arbitrary tensor.
func arb() (c, keep elasticity.Rank4) {
	c, keep = elasticity.NewRank4(), elasticity.NewRank4()
	each(func(i, j, k, l int) {
		v := sym.Float(fmt.Sprintf("c%d%d%d%d", i, j, k, l), -10, 10)
		c.Set(i, j, k, l, v)
		keep.Set(i, j, k, l, v)
	})
	return
}

// HStore: values are stored and read at their own index.
func HStore() {
	sym.Bound("an arbitrary tensor; every index quadruple; one overwritten element")
	c, keep := arb()
	var orig []float64
	each(func(i, j, k, l int) { orig = append(orig, keep.At(i, j, k, l)) })
	q := sym.Choose("element", 81)
	x := sym.Float("x", -10, 10)
	c.Set(q/27, q/9%3, q/3%3, q%3, x)
	each(func(i, j, k, l int) {
		want := orig[27*i+9*j+3*k+l]
		sym.Close("copy", keep.At(i, j, k, l), want, 0)
		if q == 27*i+9*j+3*k+l {
			want = x
		}
		sym.Close("stored", c.At(i, j, k, l), want, 0)
	})
}

func matrix(name string, b float64) ([3][3]float64, *mat.Dense) {
	var r [3][3]float64
	m := mat.NewDense(3, 3, nil)
	for i := range r {
		for j := range r[i] {
			r[i][j] = sym.Float(fmt.Sprintf("%s%d%d", name, i, j), -b, b)
			m.Set(i, j, r[i][j])
		}
	}
	return r, m
}

func rotated(c *elasticity.Rank4, r [3][3]float64) elasticity.Rank4 {
	out := elasticity.NewRank4()
	each(func(i, j, k, l int) {
		s := 0.0
		each(func(m, n, p, q int) {
			s += r[i][m] * r[j][n] * r[k][p] * r[l][q] * c.At(m, n, p, q)
		})
		out.Set(i, j, k, l, s)
	})
	return out
}

// HRotate: the transformation law for an arbitrary matrix and tensor.
func HRotate() {
	sym.Bound("arbitrary tensor entries in [-10,10] (81 of them) and arbitrary matrix entries in [-2,2]; the law is that of a rank four tensor, from which composition, preserved symmetries and invariance of the energy follow for orthogonal matrices")
	c, keep := arb()
	r, m := matrix("r", 2)
	c.Rotate(m)
	want := rotated(&keep, r)
	for i := range want.Data {
		sym.Close("rotated", c.Data[i], want.Data[i], 1e-6)
	}
	for i := range r {
		for j := range r[i] {
			sym.Close("matrix", m.At(i, j), r[i][j], 0)
		}
	}
}

// HCompose: two rotations after each other equal the rotation by the product.
func HCompose() {
	sym.Bound("two arbitrary matrices with entries in [-2,2]; tensors with one arbitrary entry at any position (the law is linear in the tensor)")
	q := sym.Choose("element", 81)
	v := sym.Float("v", -10, 10)
	a, b := elasticity.NewRank4(), elasticity.NewRank4()
	a.Data[q], b.Data[q] = v, v
	_, r := matrix("r", 2)
	_, s := matrix("s", 2)
	a.Rotate(r)
	a.Rotate(s)
	prod := mat.NewDense(3, 3, nil)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			x := 0.0
			for k := 0; k < 3; k++ {
				x += s.At(i, k) * r.At(k, j)
			}
			prod.Set(i, j, x)
		}
	}
	b.Rotate(prod)
	for i := range a.Data {
		sym.Close("composed", a.Data[i], b.Data[i], 1e-5)
	}
}

// turn is a rotation by an arbitrary angle about one axis, or its mirror image.
func turn() (*mat.Dense, [3][3]float64) {
	axis := sym.Choose("axis", 3)
	angle := sym.Float("angle", -7, 7)
	m := elasticity.RotationMatrix(angle, axis)
	c, s := math.Cos(angle), math.Sin(angle)
	b, d := (axis+1)%3, (axis+2)%3
	if b > d {
		b, d = d, b
	}
	var r [3][3]float64
	r[axis][axis] = 1
	r[b][b], r[d][d] = c, c
	r[b][d], r[d][b] = s, -s
	for i := range r {
		for j := range r[i] {
			sym.Close("matrix", m.At(i, j), r[i][j], 1e-12)
			dot := 0.0
			for k := 0; k < 3; k++ {
				dot += m.At(i, k) * m.At(j, k)
			}
			sym.Close("orthogonal", dot, dl(i, j), 1e-12)
		}
	}
	return m, r
}

// HAxis: rotations about an axis by any angle.
func HAxis() {
	sym.Bound("rotations about each axis by any angle in [-7,7]; isotropic tensors with arbitrary constants, cubic and symmetric Voigt tensors with arbitrary constants, arbitrary symmetric strains")
	m, r := turn()
	switch sym.Choose("tensor", 3) {
	case 0:
		c := elasticity.Isotropic(sym.Float("bulk", -10, 200), sym.Float("poisson", -0.9, 0.49))
		keep := append([]float64(nil), c.Data...)
		c.Rotate(m)
		for i := range keep {
			sym.Close("isotropic", c.Data[i], keep[i], 1e-6)
		}
	case 1:
		c := elasticity.CubicMaterial(sym.Float("c11", -200, 200), sym.Float("c12", -200, 200), sym.Float("c44", -200, 200))
		energy(c, m, r)
	case 2:
		v := make([]float64, 36)
		for p := 0; p < 6; p++ {
			for q := p; q < 6; q++ {
				v[6*p+q] = sym.Float(fmt.Sprintf("v%d%d", p, q), -200, 200)
				v[6*q+p] = v[6*p+q]
			}
		}
		energy(elasticity.FromFlatVoigt(v), m, r)
	}
}

func energy(c elasticity.Rank4, m *mat.Dense, r [3][3]float64) {
	// rotated strain R e R^T
	var e, t [3][3]float64
	for i := range e {
		for j := i; j < 3; j++ {
			e[i][j] = sym.Float(fmt.Sprintf("e%d%d", i, j), -0.5, 0.5)
			e[j][i] = e[i][j]
		}
	}
	for i := range t {
		for j := range t {
			for k := range t {
				for l := range t {
					t[i][j] += r[i][k] * r[j][l] * e[k][l]
				}
			}
		}
	}
	before := elasticity.EnergyDensity(&c, dense(e))
	c.Rotate(m)
	symmetries("rotated ", &c, true)
	sym.Close("energy", elasticity.EnergyDensity(&c, dense(t)), before, 1e-5)
}

func dense(e [3][3]float64) *mat.Dense {
	m := mat.NewDense(3, 3, nil)
	for i := range e {
		for j := range e {
			m.Set(i, j, e[i][j])
		}
	}
	return m
}

// HContract: stress and energy of an arbitrary tensor and strain.
func HContract() {
	sym.Bound("arbitrary tensors with 81 entries in [-10,10] and arbitrary (also unsymmetric) strains in [-2,2]")
	c, keep := arb()
	e, m := matrix("e", 2)
	s := c.ContractLast(m)
	tot := 0.0
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			want := 0.0
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					want += keep.At(i, j, k, l) * e[k][l]
				}
			}
			sym.Close("stress", s.At(i, j), want, 1e-8)
			sym.Close("strain", m.At(i, j), e[i][j], 0)
			tot += want * e[i][j]
		}
	}
	sym.Close("energy", elasticity.EnergyDensity(&c, m), 0.5*tot, 1e-8)
	for i := range keep.Data {
		sym.Close("tensor", c.Data[i], keep.Data[i], 0)
	}
}
