// Package vg stands in for gonum.org/v1/plot/vg.
package vg

// Length is a length.
type Length float64

const (
	Inch       Length = 72
	Centimeter Length = Inch / 2.54
	Millimeter Length = Centimeter / 10
)

// Points is a length in points.
func Points(x float64) Length { return Length(x) }

// Point is a location.
type Point struct{ X, Y Length }

// CanvasSizer is a canvas of known size.
type CanvasSizer interface{ Size() (x, y Length) }
