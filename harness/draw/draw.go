// Package draw stands in for gonum.org/v1/plot/vg/draw: it keeps which part of which canvas is drawn to.
package draw

import (
	"image/color"

	"github.com/davidkleiven/gopf/zverif/vg"
)

// Canvas is a part of a canvas.
type Canvas struct {
	On                       vg.CanvasSizer
	Left, Right, Bottom, Top vg.Length
}

// LineStyle is the style of a line.
type LineStyle struct {
	Color  color.Color
	Width  vg.Length
	Dashes []vg.Length
}

// GlyphStyle is the style of a point.
type GlyphStyle struct {
	Color  color.Color
	Radius vg.Length
}

// New is the whole canvas.
func New(c vg.CanvasSizer) Canvas {
	w, h := c.Size()
	return Canvas{On: c, Right: w, Top: h}
}

// NewCanvas is the whole canvas.
func NewCanvas(c vg.CanvasSizer, w, h vg.Length) Canvas { return Canvas{On: c, Right: w, Top: h} }

// Crop is a smaller part.
func Crop(c Canvas, left, right, bottom, top vg.Length) Canvas {
	c.Left += left
	c.Right += right
	c.Bottom += bottom
	c.Top += top
	return c
}
