// Package vgimg stands in for gonum.org/v1/plot/vg/vgimg.
package vgimg

import (
	"io"

	"github.com/davidkleiven/gopf/zverif/vg"
)

// Canvas is a canvas.
type Canvas struct{ w, h vg.Length }

// New makes a canvas.
func New(w, h vg.Length) *Canvas { return &Canvas{w, h} }

// Size is the size.
func (c *Canvas) Size() (x, y vg.Length) { return c.w, c.h }

// Written lists the canvases written so far.
var Written []*Canvas

func write(c *Canvas, kind string, w io.Writer) (int64, error) {
	n, err := w.Write([]byte(kind))
	if err == nil {
		Written = append(Written, c)
	}
	return int64(n), err
}

// PngCanvas, JpegCanvas and TiffCanvas are written in a format.
type PngCanvas struct{ *Canvas }

// JpegCanvas is written as jpeg.
type JpegCanvas struct{ *Canvas }

// TiffCanvas is written as tiff.
type TiffCanvas struct{ *Canvas }

func (c PngCanvas) WriteTo(w io.Writer) (int64, error)  { return write(c.Canvas, "png", w) }
func (c JpegCanvas) WriteTo(w io.Writer) (int64, error) { return write(c.Canvas, "jpg", w) }
func (c TiffCanvas) WriteTo(w io.Writer) (int64, error) { return write(c.Canvas, "tiff", w) }
