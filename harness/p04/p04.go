package p04

import (
	"math"

	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

const tol = 1e-9

func vec(n string) []float64 { return ref.Real(n, 3, -3, 3) }

// apply1 is the mathematical map of kind k with parameters (vec v, angle t).
func apply1(k int, v []float64, t float64, x []float64) []float64 {
	c, s := math.Cos(t), math.Sin(t)
	switch k {
	case 0:
		return []float64{x[0] + v[0], x[1] + v[1], x[2] + v[2]}
	case 1:
		return []float64{x[0] * v[0], x[1] * v[1], x[2] * v[2]}
	case 2: // about x: y -> z
		return []float64{x[0], c*x[1] - s*x[2], s*x[1] + c*x[2]}
	case 3: // about y: z -> x
		return []float64{c*x[0] + s*x[2], x[1], -s*x[0] + c*x[2]}
	case 4: // about z: x -> y
		return []float64{c*x[0] - s*x[1], s*x[0] + c*x[1], x[2]}
	}
	return append([]float64(nil), x...)
}

func build(k int, v []float64, t float64) pfutil.Affine {
	switch k {
	case 0:
		return pfutil.Translation(v)
	case 1:
		return pfutil.Scaling(v)
	case 2:
		return pfutil.RotX(t)
	case 3:
		return pfutil.RotY(t)
	case 4:
		return pfutil.RotZ(t)
	}
	return pfutil.Identity()
}

func HSingle() {
	sym.Bound("every elementary transformation, arbitrary vectors in [-3,3], arbitrary angle in [-7,7] (sine and cosine as unknowns on the unit circle), arbitrary points in [-3,3]^3")
	k := sym.Choose("kind", 6)
	v, x := vec("v"), vec("x")
	t := sym.Float("angle", -7, 7)
	a := build(k, v, t)
	y := append([]float64(nil), x...)
	a.Apply(y)
	w := apply1(k, v, t, x)
	for j := range w {
		sym.Close("map", y[j], w[j], tol)
	}
	// 2D positions are mapped in the plane z=0
	p := []float64{x[0], x[1]}
	a.Apply(p)
	w2 := apply1(k, v, t, []float64{x[0], x[1], 0})
	sym.Close("map2d", p[0], w2[0], tol)
	sym.Close("map2d", p[1], w2[1], tol)
	if k >= 2 && k <= 4 {
		// rigid and fixing its axis
		sym.Close("length", y[0]*y[0]+y[1]*y[1]+y[2]*y[2], x[0]*x[0]+x[1]*x[1]+x[2]*x[2], tol)
		sym.Close("axis", y[k-2], x[k-2], tol)
	}
}

// two component vectors, as used on 2D grids
func HShortVec() {
	sym.Bound("two-component translations and scalings on 2D points")
	v, x := vec("v"), vec("x")
	p := []float64{x[0], x[1]}
	a := pfutil.Translation(v[:2])
	a.Apply(p)
	sym.Close("t0", p[0], x[0]+v[0], tol)
	sym.Close("t1", p[1], x[1]+v[1], tol)
	p = []float64{x[0], x[1]}
	b := pfutil.Scaling(v[:2])
	b.Apply(p)
	sym.Close("s0", p[0], x[0]*v[0], tol)
	sym.Close("s1", p[1], x[1]*v[1], tol)
}

func HCompose() {
	sym.Bound("every ordered chain of two (thorough: three) elementary transformations with arbitrary parameters")
	n := 2
	if sym.Thorough() {
		n = 3
	}
	x := vec("x")
	var tot pfutil.Affine
	w := append([]float64(nil), x...)
	for j := 0; j < n; j++ {
		k := sym.Choose("kind", 5)
		v := vec("v")
		t := sym.Float("angle", -7, 7)
		a := build(k, v, t)
		if j == 0 {
			tot = a
		} else {
			tot.Append(a)
			// the appended transformation itself is unchanged
			u := append([]float64(nil), x...)
			a.Apply(u)
			uw := apply1(k, v, t, x)
			for i := range u {
				sym.Close("unchanged", u[i], uw[i], tol)
			}
		}
		w = apply1(k, v, t, w)
	}
	y := append([]float64(nil), x...)
	tot.Apply(y)
	for i := range y {
		sym.Close("composed", y[i], w[i], 1e-8)
	}
}

func HBBox() {
	sym.Bound("boxes with sides and balls with radii in [0,40], arbitrary points")
	x := ref.Real("x", 3, -50, 50)
	dim := 2 + sym.Choose("dim", 2)
	var s pfutil.Shape
	inside := true
	if sym.Choose("shape", 2) == 0 {
		r := sym.Float("r", 0, 40)
		s = &pfutil.Ball{Radius: r}
		q := 0.0
		for j := 0; j < dim; j++ {
			q += x[j] * x[j]
		}
		inside = q < r*r
	} else {
		diag := ref.Real("d", dim, 0, 40)
		s = &pfutil.Box{Diagonal: diag}
		for j := 0; j < dim; j++ {
			inside = inside && x[j] <= diag[j]/2 && x[j] >= -diag[j]/2
		}
	}
	got := s.InteriorPoint(x[:dim])
	sym.Assert("inside", got == inside)
	b := s.BBox()
	sym.Assert("rank", len(b.Min) == 3 && len(b.Max) == 3)
	if got {
		for j := 0; j < dim; j++ {
			sym.Assert("box", float64(b.Min[j]) <= x[j] && x[j] <= float64(b.Max[j]))
		}
	}
}

// The transformation and the shape depend on one unknown at a time around a
// generic base point, so that every node's membership is a function of it.
func HDraw() {
	sym.Bound("drawing balls and boxes on grids 3x2, 1x4, 2x3x2 (thorough also 4x3, 3x2x3): arbitrary grid values and paint value; no transformation, or a generic 3x4 affine matrix; one of {any matrix entry in [-2,2], any side or the radius in [0.25,4]} arbitrary at a time; points closer than 1e-6 to the surface excluded")
	l := [][]int{{3, 2}, {1, 4}, {2, 3, 2}}
	if sym.Thorough() {
		l = append(l, []int{4, 3}, []int{3, 2, 3})
	}
	d := ref.Grids("grid", l)
	m := []float64{0.9, -0.35, 0.2, -0.7, 0.45, 0.8, -0.3, -0.4, -0.25, 0.3, 1.1, -0.6}
	size := []float64{1.9, 2.3, 1.7}
	which := sym.Choose("unknown", 16)
	var tr *pfutil.Affine
	switch {
	case which < 12:
		m[which] = sym.Float("m", -2, 2)
	case which < 15:
		size[which-12] = sym.Float("s", 0.25, 4)
	default:
		m = []float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0}
		size[0] = sym.Float("s", 0.25, 4)
	}
	if which < 15 {
		a := pfutil.Identity()
		for i := 0; i < 3; i++ {
			for j := 0; j < 4; j++ {
				a.Mat.Set(i, j, m[4*i+j])
			}
		}
		tr = &a
	}
	n := ref.Num(d)
	g := pfutil.NewGrid(d)
	old := ref.Real("g", n, -5, 5)
	copy(g.Data, old)
	val := sym.Float("value", 6, 9)
	var s pfutil.Shape
	box := sym.Choose("shape", 2) == 1
	if box {
		s = &pfutil.Box{Diagonal: size[:len(d)]}
	} else {
		s = &pfutil.Ball{Radius: size[0]}
	}
	want := append([]float64(nil), old...)
	for j := range want {
		x := ref.Crd(d, j)
		p := []float64{0, 0, 0}
		for a := range x {
			p[a] = float64(x[a])
		}
		q := 0.0
		inside := true
		for a := range d {
			y := m[4*a]*p[0] + m[4*a+1]*p[1] + m[4*a+2]*p[2] + m[4*a+3]
			q += y * y
			if box {
				h := size[a] / 2
				sym.Assume(!(y-h > -1e-6 && y-h < 1e-6) && !(y+h > -1e-6 && y+h < 1e-6))
				inside = inside && y < h && y > -h
			}
		}
		if !box {
			e := q - size[0]*size[0]
			sym.Assume(!(e > -1e-6 && e < 1e-6))
			inside = e < 0
		}
		if inside {
			want[j] = val
		}
	}
	pfutil.Draw(s, &g, tr, val)
	sym.EqInt("len", len(g.Data), n)
	for j := range want {
		sym.Close("painted", g.Data[j], want[j], 0)
	}
}
