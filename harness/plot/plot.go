// Package plot stands in for gonum.org/v1/plot: it keeps what is drawn.
package plot

import (
	"errors"
	"image/color"
	"os"
	"strings"

	"github.com/davidkleiven/gopf/zverif/draw"
	"github.com/davidkleiven/gopf/zverif/vg"
)

// Plotter is anything that can be added.
type Plotter interface{}

// Text is a text.
type Text struct {
	Text    string
	Padding vg.Length
}

// Axis is an axis.
type Axis struct {
	Label    Text
	Min, Max float64
	Padding  vg.Length
	Width    vg.Length
}

// Legend names what is shown.
type Legend struct {
	Entries []Entry
	Top     bool
	Left    bool
	XOffs   vg.Length
	YOffs   vg.Length
	Padding vg.Length
}

// Entry is a name with what it stands for.
type Entry struct {
	Name  string
	Items []interface{}
}

// Add adds a name.
func (l *Legend) Add(name string, t ...interface{}) { l.Entries = append(l.Entries, Entry{name, t}) }

// Plot is a plot.
type Plot struct {
	Title  Text
	X, Y   Axis
	Legend Legend

	Items []Plotter
	Drawn []draw.Canvas

	BackgroundColor color.Color
	Saved           []string
}

// Made lists the plots made so far.
var Made []*Plot

// New makes a plot.
func New() *Plot {
	p := &Plot{}
	Made = append(Made, p)
	return p
}

func (p *Plot) Add(ps ...Plotter)  { p.Items = append(p.Items, ps...) }
func (p *Plot) HideX()             {}
func (p *Plot) HideY()             {}
func (p *Plot) HideAxes()          {}
func (p *Plot) Draw(c draw.Canvas) { p.Drawn = append(p.Drawn, c) }

// Save writes the plot to a file of a known kind.
func (p *Plot) Save(w, h vg.Length, file string) error {
	k := strings.LastIndex(file, ".")
	if k < 0 || k == len(file)-1 {
		return errors.New("plot: unsupported format")
	}
	if err := os.WriteFile(file, []byte("plot"), 0644); err != nil {
		return err
	}
	p.Saved = append(p.Saved, file)
	return nil
}
