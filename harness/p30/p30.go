// Package p30 checks the crystal builder and the tilt boundary.
package p30

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
	"gonum.org/v1/gonum/mat"
)

// HCorners: cell times scaled corner is the corner.
func HCorners() {
	sym.Bound("2D and 3D cells with diagonal in [5,9] and off-diagonal in [-0.8,0.8], domain sizes 1 to 200")
	dim := 2 + sym.Choose("third dimension", 2)
	c := mat.NewDense(dim, dim, nil)
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			lo, hi := -0.8, 0.8
			if i == j {
				lo, hi = 5, 9
			}
			c.Set(i, j, sym.Float(fmt.Sprintf("c%d%d", i, j), lo, hi))
		}
	}
	keep := mat.DenseCopyOf(c)
	d := make([]int, dim)
	for i := range d {
		d[i] = sym.Int(fmt.Sprintf("d%d", i), 1, 200)
	}
	got := pfc.CornersScaledCrd(pfc.Cell{CellVec: c}, d)
	r, n := got.Dims()
	sym.EqInt("rows", r, dim)
	sym.EqInt("corners", n, 1<<uint(dim))
	for k := 0; k < n; k++ {
		for i := 0; i < dim; i++ {
			x := 0.0
			for j := 0; j < dim; j++ {
				x += keep.At(i, j) * got.At(j, k)
				sym.Close("cell kept", c.At(i, j), keep.At(i, j), 0)
			}
			want := 0.0
			if k>>uint(dim-1-i)&1 == 1 {
				want = float64(d[i])
			}
			sym.Close("corner", x, want, 1e-8)
		}
	}
}

// HGauss: the Gaussian kernel.
func HGauss() {
	sym.Bound("widths in [0.01,50], distances in [0,200], tested up to ten widths")
	w := sym.Float("width", 0.01, 50)
	k := pfc.GaussianKernel{Width: w}
	sym.Close("cutoff", k.Cutoff(), 3*w, 1e-12)
	x := sym.Float("widths away", 0, 10)
	sym.Close("value", k.Eval(x*w), math.Exp(-x*x/2), 1e-9)
	sym.Close("centre", k.Eval(0), 1, 0)
	sym.Close("even", k.Eval(-x*w), k.Eval(x*w), 0)
}

// HCircle: one inside the radius, zero a node beyond it.
func HCircle() {
	sym.Bound("radius in [0.5,50], distances in [-5,200]")
	r := sym.Float("radius", 0.5, 50)
	k := pfc.CircleKernel{Radius: r}
	sym.Close("cutoff", k.Cutoff(), r, 0)
	sym.Close("area", k.Area(), math.Pi*r*r, 1e-9)
	x := sym.Float("distance", -5, 200)
	v := k.Eval(x)
	switch {
	case x >= 0 && x < r:
		sym.Close("inside", v, 1, 0)
	case x < 0 || x >= r+1:
		sym.Close("outside", v, 0, 0)
	default:
		sym.Assert("edge", v == 0 || v == 1)
	}
}

// tag is a kernel whose value tells the distance.
type tag struct{ cut, top, slope float64 }

func (t *tag) Eval(x float64) float64 { return t.top + t.slope*x }
func (t *tag) Cutoff() float64        { return t.cut }

type crystal struct {
	name  string
	cell  []float64
	dims  []int
	basis int
	cut   float64
}

// round rounds down.
func down(x float64) int { return int(math.Floor(x)) }

// HBuild: every atom of every cell inside the domain is drawn around its position, and nothing else.
func HBuild() {
	list := []crystal{
		{"square", []float64{4, 0, 0, 4}, []int{8, 8}, 1, 1},
		{"oblique", []float64{4, 1.5, 0, 4}, []int{8, 7}, 1, 1},
		{"skew", []float64{5, -1, 1, 4}, []int{9, 8}, 1, 2},
		{"cubic", []float64{3, 0, 0, 0, 3, 0, 0, 0, 3}, []int{4, 4, 6}, 1, 1},
	}
	if sym.Thorough() {
		list = append(list,
			crystal{"two atoms", []float64{6, 0, 0, 6}, []int{8, 8}, 2, 1},
			crystal{"wide", []float64{5, 0, 2, 4}, []int{12, 5}, 1, 2},
			crystal{"fcc", []float64{0, 2, 2, 2, 0, 2, 2, 2, 0}, []int{4, 4, 4}, 1, 1})
	}
	sym.Bound("crystals (cell row by row, domain, atoms per cell, cutoff) " + fmt.Sprint(list) + "; atoms anywhere inside one of the listed nodes of the cell but 1e-6 away from integer and half-integer coordinates, kernel and previous contents arbitrary")
	c := list[sym.Choose("crystal", len(list))]
	dim := len(c.dims)
	n := ref.Num(c.dims)
	cell := mat.NewDense(dim, dim, append([]float64(nil), c.cell...))
	inv := mat.NewDense(dim, dim, nil)
	if err := inv.Inverse(cell); err != nil {
		panic(err)
	}
	basis := mat.NewDense(dim, c.basis, nil)
	at := sym.Choose("node of the cell", 3)
	for b := 0; b < c.basis; b++ {
		pos := make([]float64, dim)
		for i := range pos {
			pos[i] = float64((at*(i+1)+2*b)%4) + sym.Float(fmt.Sprintf("inside%d%d", i, b), 0.01, 0.99)
		}
		for i := 0; i < dim; i++ {
			x := 0.0
			for j := 0; j < dim; j++ {
				x += inv.At(i, j) * pos[j]
			}
			basis.Set(i, b, x)
		}
	}
	k := &tag{c.cut, sym.Float("top", 100, 200), sym.Float("slope", 1, 2)}
	u := pfc.UnitCell{Cell: pfc.Cell{CellVec: cell}, Basis: basis}
	vol := u.Cell.Volume()

	// the lattice is anchored at the smallest scaled corner coordinate
	lo, hi := 0.0, 0.0
	for q := 0; q < 1<<uint(dim); q++ {
		x := mat.NewVecDense(dim, nil)
		for i := 0; i < dim; i++ {
			if q>>uint(i)&1 == 1 {
				x.SetVec(i, float64(c.dims[i]))
			}
		}
		s := mat.NewVecDense(dim, nil)
		if err := s.SolveVec(cell, x); err != nil {
			panic(err)
		}
		for i := 0; i < dim; i++ {
			lo, hi = math.Min(lo, s.AtVec(i)), math.Max(hi, s.AtVec(i))
		}
	}
	m := down(hi-lo) + 1
	half := math.Pow(vol, 1.0/3) / 2
	var atoms [][]float64
	idx := make([]int, dim)
	for q := 0; q < int(math.Pow(float64(m), float64(dim))+0.5); q++ {
		r := q
		for i := range idx {
			idx[i], r = r%m, r/m
		}
		o := make([]float64, dim)
		in := true
		for i := range o {
			for j := range idx {
				o[i] += c.cell[i*dim+j] * (float64(idx[j]) + lo)
			}
			if o[i] < -1e-9 || o[i]+half > float64(c.dims[i])+1e-9 {
				in = false
			}
		}
		if !in {
			continue
		}
		for b := 0; b < c.basis; b++ {
			a := make([]float64, dim)
			for i := range a {
				a[i] = o[i]
				for j := range a {
					a[i] += c.cell[i*dim+j] * basis.At(j, b)
				}
			}
			atoms = append(atoms, a)
		}
	}
	for _, a := range atoms {
		for i := range a {
			// away from the places where rounding to a node is a matter of the last digit
			for m := -2.0; m < float64(2*c.dims[i]+8); m++ {
				sym.Assume(a[i] < m/2-1e-6 || a[i] > m/2+1e-6)
			}
		}
	}
	g := pfutil.NewGrid(c.dims)
	old := ref.Real("old", n, -1, 1)
	copy(g.Data, old)
	pfc.BuildCrystal(u, k, &g)
	sym.Assert("some atoms", len(atoms) > 0)
	for p := range g.Data {
		x := ref.Crd(c.dims, p)
		// distances along the axes to the nearest image of every atom
		near, must := false, false
		var rs []float64
		for _, a := range atoms {
			in, well := true, true
			r2 := 0.0
			for i := range a {
				d := math.Abs(float64(x[i]) - a[i])
				for d > float64(c.dims[i])/2 {
					d = math.Abs(float64(c.dims[i]) - d)
				}
				if d >= c.cut+1 {
					in = false
				}
				if d > c.cut-1 {
					well = false
				}
				r2 += d * d
			}
			if in {
				near = true
				rs = append(rs, r2)
			}
			if well {
				must = true
			}
		}
		v := g.Data[p]
		if v > 50 {
			sym.Assert("only near an atom", near)
			r := (v - k.top) / k.slope
			lo, hi := math.Max(0, r-math.Sqrt(float64(dim))), r+math.Sqrt(float64(dim))
			ok := false
			for _, s := range rs {
				if s < hi*hi && s >= lo*lo {
					ok = true
					break
				}
			}
			sym.Assert("kernel value of its distance", ok)
		} else {
			sym.Close("untouched", v, old[p], 0)
			sym.Assert("drawn", !must)
		}
	}
}

// HTilt: the lower rows come from the grid turned one way, the upper rows from the grid turned the other way.
func HTilt() {
	sym.Bound("grids 2x3, 3x2, 2x2 (thorough also 1x5, 5x1), any angle in [-6.4,6.4] whose rotated coordinates stay 1e-6 away from integers, arbitrary data")
	l := [][]int{{2, 3}, {3, 2}, {2, 2}}
	if sym.Thorough() {
		l = append(l, []int{1, 5}, []int{5, 1})
	}
	d := ref.Grids("grid", l)
	tilt(d, sym.Float("half angle", -3.2, 3.2))
}

// HTiltLarge has fixed angles on larger grids.
func HTiltLarge() {
	sym.Bound("half angles 0.3, -0.7, 1.1, 2.9 on 3x5, 5x5, 5x4, 6x7, 9x8, arbitrary data")
	d := ref.Grids("grid", [][]int{{3, 5}, {5, 5}, {5, 4}, {6, 7}, {9, 8}})
	tilt(d, []float64{0.3, -0.7, 1.1, 2.9}[sym.Choose("half angle", 4)])
}

func tilt(d []int, t float64) {
	g := pfutil.NewGrid(d)
	old := ref.Real("v", len(g.Data), -4, 4)
	copy(g.Data, old)
	c, s := math.Cos(t), math.Sin(t)
	cx, cy := d[0]/2, d[1]/2
	p := make([]float64, len(old))
	q := make([]float64, len(old))
	for k := range old {
		x := ref.Crd(d, k)
		u, v := float64(x[0]-cx), float64(x[1]-cy)
		sg := s
		if x[0] >= d[0]/2 {
			sg = -s
		}
		p[k] = u*c - v*sg
		q[k] = u*sg + v*c
		if u != 0 || v != 0 {
			r := int(math.Sqrt(u*u+v*v) + 1e-6)
			for m := -r; m <= r; m++ {
				sym.Assume(p[k] < float64(m)-1e-6 || p[k] > float64(m)+1e-6)
				sym.Assume(q[k] < float64(m)-1e-6 || q[k] > float64(m)+1e-6)
			}
		}
	}
	pfc.TiltGB(&g, 2*t)
	for k := range old {
		src := ref.Node(d, []int{cx + int(p[k]), cy + int(q[k])})
		sym.Close("source", g.Data[k], old[sym.Concrete(src)], 0)
	}
}

// HTiltFlat: no angle, no change; only flat grids.
func HTiltFlat() {
	sym.Bound("angle 0 on 3x4, 4x4, 5x3, arbitrary data")
	d := ref.Grids("grid", [][]int{{3, 4}, {4, 4}, {5, 3}})
	g := pfutil.NewGrid(d)
	old := ref.Real("v", len(g.Data), -4, 4)
	copy(g.Data, old)
	pfc.TiltGB(&g, 0)
	for j := range old {
		sym.Close("identity", g.Data[j], old[j], 0)
	}
	h := pfutil.NewGrid([]int{2, 2, 2})
	sym.Assert("3D refused", sym.Panics(func() { pfc.TiltGB(&h, 0) }))
}
