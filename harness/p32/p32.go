// Package p32 checks the commands that plot fields from files. The plotting, image and flag libraries are stand-ins
// that keep what they are told; the commands, and the reading of the files, are the real ones.
package p32

import (
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/davidkleiven/gopf/cmd"
	"github.com/davidkleiven/gopf/zverif/image"
	"github.com/davidkleiven/gopf/zverif/log"
	"github.com/davidkleiven/gopf/zverif/palette"
	"github.com/davidkleiven/gopf/zverif/plot"
	"github.com/davidkleiven/gopf/zverif/plotter"
	"github.com/davidkleiven/gopf/zverif/sym"
	"github.com/davidkleiven/gopf/zverif/vgimg"
)

// call runs a command and tells whether it came to its end.
func call(name string, f map[string]interface{}) (ok bool) {
	plot.Made, vgimg.Written = nil, nil
	defer func() {
		if r := recover(); r != nil {
			ok = false
			if log.Ended(r) {
				sym.Fail(name + " gave up: " + fmt.Sprint(r))
			} else {
				sym.Fail(name + " crashed")
			}
		}
	}()
	c := cmd.ZzRoot().Find(name)
	if c == nil {
		sym.Fail("no command " + name)
		return false
	}
	if err := c.Call(f); err != nil {
		sym.Fail("flags of " + name)
		return false
	}
	return true
}

// order is a permutation of n rows, one of a few for many rows.
func order(n int) []int {
	var p []int
	if n <= 3 || n == 4 && sym.Thorough() {
		left := make([]int, n)
		for k := range left {
			left[k] = k
		}
		for len(left) > 0 {
			k := sym.Choose("row", len(left))
			p = append(p, left[k])
			left = append(append([]int{}, left[:k]...), left[k+1:]...)
		}
		return p
	}
	by := []func(k int) int{
		func(k int) int { return k },
		func(k int) int { return n - 1 - k },
		func(k int) int { return (k + n/2) % n },
		func(k int) int { return k ^ 1 },
	}[sym.Choose("order", 4)]
	for k := 0; k < n; k++ {
		if q := by(k); q < n {
			p = append(p, q)
		} else {
			p = append(p, k)
		}
	}
	return p
}

// write makes a file of rows with fields of any value.
func write(pos [][]int, names []string, sep string, bound float64) (string, [][]float64) {
	val := make([][]float64, len(pos))
	for k := range pos {
		for range names {
			val[k] = append(val[k], sym.Float("value", -bound, bound))
		}
	}
	text := strings.Join(append([]string{"X", "Y", "Z"}, names...), sep) + "\n"
	for _, k := range order(len(pos)) {
		text += fmt.Sprintf("%d%s%d%s%d", pos[k][0], sep, pos[k][1], sep, pos[k][2])
		for _, v := range val[k] {
			text += fmt.Sprintf("%s%v", sep, v)
		}
		text += "\n"
	}
	file := sym.TempDir() + "/data.csv"
	if err := os.WriteFile(file, []byte(text), 0644); err != nil {
		sym.Fail("no file")
	}
	return file, val
}

// grid lists the nodes of a grid.
func grid(nx, ny, nz int) [][]int {
	var pos [][]int
	for x := 0; x < nx; x++ {
		for y := 0; y < ny; y++ {
			for z := 0; z < nz; z++ {
				pos = append(pos, []int{x, y, z})
			}
		}
	}
	return pos
}

// shown is the color at a point of the axes.
func shown(p *plotter.Image, x, y float64) (palette.Value, bool) {
	b := p.Img.Bounds()
	i := int(math.Floor((x - p.Xmin) / (p.Xmax - p.Xmin) * float64(b.Dx())))
	j := int(math.Floor((p.Ymax - y) / (p.Ymax - p.Ymin) * float64(b.Dy()))) // the first row is at the top
	if i < 0 || i >= b.Dx() || j < 0 || j >= b.Dy() {
		return palette.Value{}, false
	}
	v, ok := p.Img.At(b.Min.X+i, b.Min.Y+j).(palette.Value)
	return v, ok
}

var _ = image.Pt

// contour checks what the command shows of a 2D grid.
func contour(nx, ny int, names []string, column string, want int, sep string, same bool) {
	pos := grid(nx, ny, 1)
	file, val := write(pos, names, sep, 1e6)
	if same {
		for k := range val {
			for f := range val[k] {
				sym.Assume(val[k][f] == val[0][f])
			}
		}
	}
	f := map[string]interface{}{"fname": file, "out": sym.TempDir() + "/picture.png"}
	if column != "" {
		f["column"] = column
	}
	if !call("contour", f) {
		return
	}
	if _, err := os.Stat(f["out"].(string)); err != nil {
		sym.Fail("nothing written")
	}
	var img *plotter.Image
	var bar *plotter.ColorBar
	images, titled := 0, false
	for _, p := range plot.Made {
		seen := false
		for _, d := range p.Drawn {
			for _, c := range vgimg.Written {
				if d.On == c {
					seen = true
				}
			}
		}
		if !seen {
			continue
		}
		if p.Title.Text == names[want] {
			titled = true
		}
		for _, it := range p.Items {
			switch it := it.(type) {
			case *plotter.Image:
				img = it
				images++
			case *plotter.ColorBar:
				bar = it
			}
		}
	}
	sym.EqInt("pictures", images, 1)
	sym.Assert("title", titled)
	sym.Assert("color bar", bar != nil)
	if images != 1 || bar == nil {
		return
	}
	for k, p := range pos {
		// inside the cell of the node, be it to the right of it or around it
		c, ok := shown(img, float64(p[0])+0.25, float64(p[1])+0.25)
		sym.Assert("node shown", ok)
		if ok {
			sym.Close("value shown", c.V, val[k][want], 0)
			sym.Assert("range of the color bar", c.Min == bar.ColorMap.Min() && c.Max == bar.ColorMap.Max())
		}
	}
}

var fields = []string{"conc", "eta", "temperature"}

func column(n int) (string, int) {
	switch c := sym.Choose("column", n+1); c {
	case n:
		return "", 0
	default:
		return fields[c], c
	}
}

// HContour: every node shows the value of the selected field, whatever the order of the rows.
func HContour() {
	sym.Bound("grids 2x2, rows in four orders (thorough: any), one to three fields with any values in [-1e6,1e6], one selected or none")
	n := 1 + sym.Choose("fields", 3)
	c, want := column(n)
	contour(2, 2, fields[:n], c, want, ",", false)
}

// HContourShape: the axes are not mixed up.
func HContourShape() {
	sym.Bound("grids 1x1, 1x3, 3x1, 3x2, 2x3 with rows in any order up to three, else four orders")
	s := [][]int{{1, 1}, {1, 3}, {3, 1}, {3, 2}, {2, 3}}[sym.Choose("shape", 5)]
	contour(s[0], s[1], fields[:2], "eta", 1, ",", false)
}

// HContourBlanks: blanks after the commas, as documented.
func HContourBlanks() {
	sym.Bound("grid 2x2, two fields, one selected or none, blanks after the commas")
	c, want := column(2)
	contour(2, 2, fields[:2], c, want, ", ", false)
}

// HContourConstant: a field with one value can be shown.
func HContourConstant() {
	sym.Bound("grid 2x2, one field of any constant value")
	contour(2, 2, fields[:1], "conc", 0, ",", true)
}

// lines checks the lines of a 3D grid.
func lines(nx, ny, nz int, axis int, names []string, data string, want []int, sep string) {
	pos := grid(nx, ny, nz)
	file, val := write(pos, names, sep, 1e6)
	f := map[string]interface{}{"fname": file, "out": sym.TempDir() + "/line.png"}
	if data != "" {
		f["data"] = data
	}
	dim := []int{nx, ny, nz}
	at := []int{0, 0, 0}
	for a, n := range []string{"x", "y", "z"} {
		if a != axis {
			at[a] = sym.Int(n, 0, dim[a]-1)
			f[n] = at[a]
		}
	}
	if !call("lineplot", f) {
		return
	}
	var p *plot.Plot
	saved := 0
	for _, q := range plot.Made {
		for _, s := range q.Saved {
			sym.EqStr("file", s, f["out"].(string))
			p = q
			saved++
		}
	}
	sym.EqInt("plots", saved, 1)
	if p == nil {
		return
	}
	var ls []*plotter.Line
	for _, it := range p.Items {
		if l, ok := it.(*plotter.Line); ok {
			ls = append(ls, l)
		}
	}
	sym.EqInt("lines", len(ls), len(want))
	sym.EqInt("legend", len(p.Legend.Entries), len(want))
	if len(ls) != len(want) || len(p.Legend.Entries) != len(want) {
		return
	}
	for k, w := range want {
		e := p.Legend.Entries[k]
		sym.EqStr("name", e.Name, names[w])
		l, ok := interface{}(nil), false
		if len(e.Items) > 0 {
			l, ok = e.Items[0], true
		}
		line, isLine := l.(*plotter.Line)
		sym.Assert("legend shows a line", ok && isLine)
		if !isLine {
			return
		}
		sym.EqInt("points", line.Len(), dim[axis])
		used := make([]bool, dim[axis])
		for i := 0; i < line.Len(); i++ {
			x, y := line.XY(i)
			// the nodes of the line
			node := -1
			for q := 0; q < dim[axis]; q++ {
				if x == float64(q) {
					node = q
				}
			}
			sym.Assert("node of the line", node >= 0 && !used[node])
			if node < 0 {
				return
			}
			used[node] = true
			at[axis] = node
			for r, ps := range pos {
				if ps[0] == at[0] && ps[1] == at[1] && ps[2] == at[2] {
					sym.Close("value on the line", y, val[r][w], 0)
				}
			}
		}
	}
}

// HLine: the points on the line, and no others, of the selected fields.
func HLine() {
	sym.Bound("grids 2x2x2, 3x2x1, 1x3x2 with rows in four orders, lines along any axis at any position, one or two of up to three fields in any order, or all of them")
	s := [][]int{{2, 2, 2}, {3, 2, 1}, {1, 3, 2}}[sym.Choose("shape", 3)]
	names := fields[:1+sym.Choose("fields", 3)]
	var want []int
	var sel []string
	switch c := sym.Choose("selected", 3); {
	case c == 0:
		for k := range names {
			want = append(want, k)
		}
	default:
		a := sym.Choose("first", len(names))
		want = []int{a}
		if c == 2 {
			if b := sym.Choose("second", len(names)); b != a {
				want = append(want, b)
			}
		}
		for _, w := range want {
			sel = append(sel, names[w])
		}
	}
	lines(s[0], s[1], s[2], sym.Choose("axis", 3), names, strings.Join(sel, ","), want, ",")
}

// HLineBlanks: blanks after the commas, as documented.
func HLineBlanks() {
	sym.Bound("grid 2x2x1, two fields, all or one selected, blanks after the commas")
	if sym.Choose("all", 2) == 0 {
		lines(2, 2, 1, sym.Choose("axis", 3), fields[:2], "", []int{0, 1}, ", ")
	} else {
		lines(2, 2, 1, sym.Choose("axis", 3), fields[:2], "eta", []int{1}, ", ")
	}
}
