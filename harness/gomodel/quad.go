package gomodel

import "github.com/davidkleiven/gopf/pfc"

// points of the equidistant rule, exact for trigonometric polynomials of degree below it.
const points = 13

// QuadSquare models pfc.QuadSquare with many points for periodic integrands.
func QuadSquare(f func(float64, float64) float64, n int) float64 {
	if n < 20 {
		return pfc.QuadSquare(f, n)
	}
	s := 0.0
	for i := 0; i < points; i++ {
		for j := 0; j < points; j++ {
			s += f(float64(i)/points, float64(j)/points)
		}
	}
	return s / (points * points)
}

// QuadCube models pfc.QuadCube with many points for periodic integrands.
func QuadCube(f func(float64, float64, float64) float64, n int) float64 {
	if n < 20 {
		return pfc.QuadCube(f, n)
	}
	s := 0.0
	for i := 0; i < points; i++ {
		for j := 0; j < points; j++ {
			for k := 0; k < points; k++ {
				s += f(float64(i)/points, float64(j)/points, float64(k)/points)
			}
		}
	}
	return s / (points * points * points)
}
