// Package image stands in for image: pictures keep the colors they are given.
package image

import "image/color"

// Point is a pixel.
type Point struct{ X, Y int }

// Rectangle holds the pixels from Min up to, not including, Max.
type Rectangle struct{ Min, Max Point }

func (r Rectangle) Dx() int { return r.Max.X - r.Min.X }
func (r Rectangle) Dy() int { return r.Max.Y - r.Min.Y }

func (p Point) in(r Rectangle) bool {
	return r.Min.X <= p.X && p.X < r.Max.X && r.Min.Y <= p.Y && p.Y < r.Max.Y
}

// Pt is a point.
func Pt(x, y int) Point { return Point{x, y} }

// Rect is a rectangle.
func Rect(x0, y0, x1, y1 int) Rectangle {
	if x0 > x1 {
		x0, x1 = x1, x0
	}
	if y0 > y1 {
		y0, y1 = y1, y0
	}
	return Rectangle{Point{x0, y0}, Point{x1, y1}}
}

// Image is a picture.
type Image interface {
	Bounds() Rectangle
	At(x, y int) color.Color
}

type picture struct {
	Rect Rectangle
	pix  map[Point]color.Color
}

func (p *picture) Bounds() Rectangle { return p.Rect }

// At is the color of a pixel, nil if it was never set.
func (p *picture) At(x, y int) color.Color { return p.pix[Point{x, y}] }

// Set colors a pixel.
func (p *picture) Set(x, y int, c color.Color) {
	if (Point{x, y}).in(p.Rect) {
		p.pix[Point{x, y}] = c
	}
}

func newPicture(r Rectangle) picture { return picture{r, map[Point]color.Color{}} }

// RGBA64, RGBA, NRGBA and NRGBA64 are pictures.
type RGBA64 struct{ picture }
type RGBA struct{ picture }
type NRGBA64 struct{ picture }
type NRGBA struct{ picture }

func NewRGBA64(r Rectangle) *RGBA64   { return &RGBA64{newPicture(r)} }
func NewRGBA(r Rectangle) *RGBA       { return &RGBA{newPicture(r)} }
func NewNRGBA64(r Rectangle) *NRGBA64 { return &NRGBA64{newPicture(r)} }
func NewNRGBA(r Rectangle) *NRGBA     { return &NRGBA{newPicture(r)} }

func (r Rectangle) Size() Point { return Point{r.Dx(), r.Dy()} }
func (r Rectangle) Empty() bool { return r.Dx() <= 0 || r.Dy() <= 0 }

// In tells whether the point is inside.
func (p Point) In(r Rectangle) bool { return p.in(r) }

// ZP is the origin.
var ZP Point

func (p *RGBA64) SetRGBA64(x, y int, c color.RGBA64)    { p.Set(x, y, c) }
func (p *RGBA) SetRGBA(x, y int, c color.RGBA)          { p.Set(x, y, c) }
func (p *NRGBA64) SetNRGBA64(x, y int, c color.NRGBA64) { p.Set(x, y, c) }
func (p *NRGBA) SetNRGBA(x, y int, c color.NRGBA)       { p.Set(x, y, c) }
