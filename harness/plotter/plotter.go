// Package plotter stands in for gonum.org/v1/plot/plotter: it keeps what is to be drawn.
package plotter

import (
	"errors"
	"math"

	"github.com/davidkleiven/gopf/zverif/draw"
	"github.com/davidkleiven/gopf/zverif/image"
	"github.com/davidkleiven/gopf/zverif/palette"
)

// XY is a point.
type XY struct{ X, Y float64 }

// XYs are points.
type XYs []XY

func (x XYs) Len() int                    { return len(x) }
func (x XYs) XY(i int) (float64, float64) { return x[i].X, x[i].Y }

// XYer is a list of points.
type XYer interface {
	Len() int
	XY(int) (x, y float64)
}

// CopyXYs copies points; none, and points that are no numbers, are errors.
func CopyXYs(data XYer) (XYs, error) {
	if data.Len() == 0 {
		return nil, errors.New("plotter: no data points")
	}
	var out XYs
	for i := 0; i < data.Len(); i++ {
		x, y := data.XY(i)
		if math.IsNaN(x) || math.IsNaN(y) || math.IsInf(x, 0) || math.IsInf(y, 0) {
			return nil, errors.New("plotter: no number")
		}
		out = append(out, XY{x, y})
	}
	return out, nil
}

// Line connects points.
type Line struct {
	XYs
	LineStyle draw.LineStyle
}

// NewLine makes a line.
func NewLine(d XYer) (*Line, error) {
	c, err := CopyXYs(d)
	if err != nil {
		return nil, err
	}
	return &Line{XYs: c}, nil
}

// Scatter shows points.
type Scatter struct {
	XYs
	GlyphStyle draw.GlyphStyle
}

// NewScatter makes points.
func NewScatter(d XYer) (*Scatter, error) {
	c, err := CopyXYs(d)
	if err != nil {
		return nil, err
	}
	return &Scatter{XYs: c}, nil
}

// Image is a picture in a rectangle of the axes, its first row at the top.
type Image struct {
	Img                    image.Image
	Xmin, Ymin, Xmax, Ymax float64
}

// NewImage places a picture.
func NewImage(img image.Image, xmin, ymin, xmax, ymax float64) *Image {
	return &Image{img, xmin, ymin, xmax, ymax}
}

// ColorBar shows the range of a color map.
type ColorBar struct {
	ColorMap palette.ColorMap
	Vertical bool
	Colors   int
}

// XValues are the first coordinates of points.
type XValues struct{ XYer }

// Value is a first coordinate.
func (x XValues) Value(i int) float64 { v, _ := x.XY(i); return v }

// YValues are the second coordinates of points.
type YValues struct{ XYer }

// Value is a second coordinate.
func (y YValues) Value(i int) float64 { _, v := y.XY(i); return v }

// Valuer is a list of numbers.
type Valuer interface {
	Len() int
	Value(int) float64
}

// Values are numbers.
type Values []float64

func (v Values) Len() int            { return len(v) }
func (v Values) Value(i int) float64 { return v[i] }

// NewLinePoints makes a line and its points.
func NewLinePoints(d XYer) (*Line, *Scatter, error) {
	s, err := NewScatter(d)
	if err != nil {
		return nil, nil, err
	}
	return &Line{XYs: s.XYs}, s, nil
}
