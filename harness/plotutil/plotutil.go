// Package plotutil stands in for gonum.org/v1/plot/plotutil.
package plotutil

import "image/color"

// Color is one of some colors.
func Color(i int) color.Color { return color.Gray{Y: uint8(i)} }

// Dashes is a full line.
func Dashes(i int) []float64 { return nil }
