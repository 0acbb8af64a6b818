// Package palette stands in for gonum.org/v1/plot/palette: a color keeps the value it stands for.
package palette

import (
	"errors"
	"github.com/davidkleiven/gopf/zverif/sym"
	"image/color"
)

// ColorMap maps values to colors.
type ColorMap interface {
	At(float64) (color.Color, error)
	Max() float64
	SetMax(float64)
	Min() float64
	SetMin(float64)
	Alpha() float64
	SetAlpha(float64)
}

// Value is the color of a value in a range.
type Value struct{ V, Min, Max float64 }

// RGBA is not looked at.
// The stand-in has no colors: a program that looks at them is not followed.
func (v Value) RGBA() (r, g, b, a uint32) {
	sym.Assume(false)
	panic("palette stand-in: color looked at")
}

// Map is a color map.
type Map struct{ min, max, alpha float64 }

func (m *Map) Max() float64       { return m.max }
func (m *Map) Min() float64       { return m.min }
func (m *Map) Alpha() float64     { return m.alpha }
func (m *Map) SetMax(v float64)   { m.max = v }
func (m *Map) SetMin(v float64)   { m.min = v }
func (m *Map) SetAlpha(v float64) { m.alpha = v }

// At refuses what the library refuses: no range, and values outside of it.
func (m *Map) At(v float64) (color.Color, error) {
	if m.max <= m.min {
		return nil, errors.New("palette: no range")
	}
	if v < m.min || v > m.max {
		return nil, errors.New("palette: outside the range")
	}
	return Value{v, m.min, m.max}, nil
}
