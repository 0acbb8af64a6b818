// Package gomodel has Go models of library functions. During symbolic execution the engine calls them instead of the
// library (see redirects in engine/interp/program.go); native runs use the library itself.
package gomodel

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

func minor(a mat.Matrix, r, c int) float64 {
	n, _ := a.Dims()
	if n == 1 {
		return 1
	}
	sub := mat.NewDense(n-1, n-1, nil)
	for i, p := 0, 0; i < n; i++ {
		if i == r {
			continue
		}
		for j, q := 0, 0; j < n; j++ {
			if j == c {
				continue
			}
			sub.Set(p, q, a.At(i, j))
			q++
		}
		p++
	}
	return det(sub)
}

func det(a mat.Matrix) float64 {
	n, _ := a.Dims()
	switch n {
	case 1:
		return a.At(0, 0)
	case 2:
		return a.At(0, 0)*a.At(1, 1) - a.At(0, 1)*a.At(1, 0)
	}
	s := 0.0
	for j := 0; j < n; j++ {
		x := a.At(0, j)
		if j%2 == 1 {
			x = -x
		}
		s += x * minor(a, 0, j)
	}
	return s
}

// Det models mat.Det for up to three rows.
func Det(a mat.Matrix) float64 {
	if r, c := a.Dims(); r != c || r > 3 {
		return mat.Det(a)
	}
	return det(a)
}

func inverse(a mat.Matrix) (*mat.Dense, bool) {
	n, _ := a.Dims()
	d := det(a)
	if d == 0 {
		return nil, false
	}
	out := mat.NewDense(n, n, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			v := minor(a, j, i) / d
			if (i+j)%2 == 1 {
				v = -v
			}
			out.Set(i, j, v)
		}
	}
	return out, true
}

func small(a mat.Matrix) bool {
	r, c := a.Dims()
	return r == c && r <= 3
}

func into(m *mat.Dense, x [][]float64) {
	if m.IsEmpty() {
		m.ReuseAs(len(x), len(x[0]))
	}
	if r, c := m.Dims(); r != len(x) || c != len(x[0]) {
		panic(mat.ErrShape)
	}
	for i := range x {
		for j := range x[i] {
			m.Set(i, j, x[i][j])
		}
	}
}

// DenseInverse models (*mat.Dense).Inverse.
func DenseInverse(m *mat.Dense, a mat.Matrix) error {
	if !small(a) {
		return m.Inverse(a)
	}
	inv, ok := inverse(a)
	if !ok {
		return mat.Condition(math.Inf(1))
	}
	n, _ := a.Dims()
	x := make([][]float64, n)
	for i := range x {
		x[i] = make([]float64, n)
		for j := range x[i] {
			x[i][j] = inv.At(i, j)
		}
	}
	into(m, x)
	return nil
}

// DenseSolve models (*mat.Dense).Solve.
func DenseSolve(m *mat.Dense, a, b mat.Matrix) error {
	if !small(a) {
		return m.Solve(a, b)
	}
	n, _ := a.Dims()
	br, bc := b.Dims()
	if br != n {
		panic(mat.ErrShape)
	}
	inv, ok := inverse(a)
	if !ok {
		return mat.Condition(math.Inf(1))
	}
	x := make([][]float64, n)
	for i := range x {
		x[i] = make([]float64, bc)
		for j := range x[i] {
			for k := 0; k < n; k++ {
				x[i][j] += inv.At(i, k) * b.At(k, j)
			}
		}
	}
	into(m, x)
	return nil
}
