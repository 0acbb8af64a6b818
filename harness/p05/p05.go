package p05

import (
	"math"

	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

type kern struct {
	cut int
	w   []float64
}

func (k *kern) Cutoff() int { return k.cut }
func (k *kern) Value(x []int) float64 {
	i, s := 0, 2*k.cut+1
	for a := range x {
		i = i*s + x[a] + k.cut
	}
	return k.w[i]
}

func grid() []int {
	return ref.Grids("grid", [][]int{{3, 4}, {4, 2}, {1, 3}, {2, 3, 2}})
}

func shifts(nd, cut int) [][]int {
	var out [][]int
	s := 2*cut + 1
	n := 1
	for a := 0; a < nd; a++ {
		n *= s
	}
	for i := 0; i < n; i++ {
		x := make([]int, nd)
		r := i
		for a := nd - 1; a >= 0; a-- {
			x[a] = r%s - cut
			r /= s
		}
		out = append(out, x)
	}
	return out
}

func HBlurKernel() {
	sym.Bound("blur on 3x4, 4x2, 1x3, 2x3x2 with arbitrary data; arbitrary non-symmetric positive kernels of half-width 1")
	d := grid()
	n := ref.Num(d)
	data := ref.Real("v", n, -4, 4)
	sh := shifts(len(d), 1)
	k := &kern{cut: 1, w: make([]float64, len(sh))}
	tot := 0.0
	for i := range k.w {
		// concrete, all different weights: the position of every weight is visible in the result
		k.w[i] = 1 + float64((i*7+3)%11)/8
		tot += k.w[i]
	}
	buf := append([]float64(nil), data...)
	pfutil.Blur(&pfutil.RealSlice{Data: buf}, d, k)
	for j := range buf {
		c := ref.Crd(d, j)
		want := 0.0
		for i, s := range sh {
			p := make([]int, len(d))
			for a := range p {
				p[a] = c[a] + s[a]
			}
			want += k.w[i] / tot * data[ref.Node(d, p)]
		}
		sym.Close("mean", buf[j], want, 1e-9)
	}
}

func HBlurWeights() {
	sym.Bound("blur with arbitrary kernel weights in [0.1,2] on a 2x3 grid, half-width 1")
	d := []int{2, 3}
	data := ref.Real("v", 6, -4, 4)
	sh := shifts(2, 1)
	k := &kern{cut: 1, w: ref.Real("w", 9, 0.1, 2)}
	tot := 0.0
	for i := range k.w {
		tot += k.w[i]
	}
	buf := append([]float64(nil), data...)
	pfutil.Blur(&pfutil.RealSlice{Data: buf}, d, k)
	for j := range buf {
		c := ref.Crd(d, j)
		want := 0.0
		for i, s := range sh {
			want += k.w[i] * data[ref.Node(d, []int{c[0] + s[0], c[1] + s[1]})]
		}
		sym.Close("mean", buf[j]*tot, want, 1e-8)
	}
}

func HBlurBox() {
	sym.Bound("box kernels of width 0..4 on the same grids, arbitrary data; real slices and real parts of complex slices")
	d := grid()
	n := ref.Num(d)
	w := sym.Choose("width", 5)
	bk := &pfutil.BoxKernel{Width: w}
	re := ref.Real("v", n, -4, 4)
	cd := ref.ToC(re)
	im := ref.Real("w", n, -4, 4)
	for j := range cd {
		cd[j] = complex(re[j], im[j])
	}
	buf := append([]float64(nil), re...)
	pfutil.Blur(&pfutil.RealSlice{Data: buf}, d, bk)
	pfutil.Blur(&pfutil.RealPartSlice{Data: cd}, d, bk)
	s0, s1 := 0.0, 0.0
	for j := range buf {
		s0 += re[j]
		s1 += buf[j]
		sym.Close("same", real(cd[j]), buf[j], 1e-9)
		sym.Close("imag", imag(cd[j]), im[j], 0)
	}
	sym.Close("total", s1, s0, 1e-8)
	// weighted mean of the neighbourhood with the kernel's own weights
	sh := shifts(len(d), bk.Cutoff())
	tot := 0.0
	for _, s := range sh {
		tot += bk.Value(s)
		neg := make([]int, len(s))
		for a := range s {
			neg[a] = -s[a]
		}
		sym.Close("symmetric", bk.Value(s), bk.Value(neg), 0)
	}
	for j := range buf {
		c := ref.Crd(d, j)
		want := 0.0
		for _, s := range sh {
			p := make([]int, len(d))
			for a := range p {
				p[a] = c[a] + s[a]
			}
			want += bk.Value(s) / tot * re[ref.Node(d, p)]
		}
		sym.Close("mean", buf[j], want, 1e-9)
		sym.Assert("range", buf[j] <= 4.000001 && buf[j] >= -4.000001)
	}
}

func HBlurConst() {
	d := grid()
	n := ref.Num(d)
	v := sym.Float("c", -4, 4)
	buf := make([]float64, n)
	for j := range buf {
		buf[j] = v
	}
	pfutil.Blur(&pfutil.RealSlice{Data: buf}, d, &pfutil.BoxKernel{Width: 1 + sym.Choose("width", 3)})
	for j := range buf {
		sym.Close("const", buf[j], v, 1e-9)
	}
}

func HVoronoi() {
	sym.Bound("Voronoi labels: all 2D domains up to 4x4 (thorough 8x8) and 3D up to 3x3x4, one to three arbitrary generating points, an arbitrary node")
	nd := 2 + sym.Choose("nd", 2)
	d := make([]int, nd)
	lim := 4
	if sym.Thorough() {
		lim = 8
	}
	for a := range d {
		m := lim
		if nd == 3 {
			m = 3
			if a == 2 {
				m = 4
			}
		}
		d[a] = sym.Concrete(sym.Int("d", 1, m))
	}
	n := ref.Num(d)
	np := 1 + sym.Choose("np", 3)
	pts := make([]int, np)
	for k := range pts {
		pts[k] = sym.Int("pt", 0, n-1)
	}
	node := sym.Int("node", 0, n-1)
	// label a single arbitrary node through the public function: data holds the node as last element
	lab := label(pts, node, d, n)
	sym.Assert("range", lab >= 0 && lab < np)
	dist := make([]int, np)
	for k := range pts {
		dist[k] = pd2(pts[k], node, d)
	}
	for k := range pts {
		// strictly nearer points never lose, ties go to the first
		sym.Assert("nearest", lab != k || isFirstMin(dist, k))
	}
}

// HVoronoiLarge labels the first nodes of large domains.
func HVoronoiLarge() {
	sym.Bound("Voronoi labels of one of the first three nodes of 600x500, 3x1024, 401x1 and 200x200x200, two generating points, one anywhere on the line along any of the axes, the other at a fixed far place, in both orders")
	d := [][]int{{600, 500}, {3, 1024}, {401, 1}, {200, 200, 200}}[sym.Choose("domain", 4)]
	node := 2 * sym.Choose("node", 2)
	free := sym.Choose("free", 2)
	own := []int{node / d[1], node % d[1], 0}
	pts := make([]int, 2)
	var dist [2]int
	for k := range pts {
		ax, off := 0, k
		crd := d[0]/2 + 1 - d[0]%2
		if k == free {
			ax = sym.Choose("axis", len(d))
			crd = sym.Int("crd", 0, d[ax]-1)
			off = sym.Choose("side", 2)
		}
		c := []int{0, 0, 0}
		for a := range d {
			if a == ax {
				c[a] = crd
			} else if off == 1 {
				c[a] = d[a] / 2
			}
			x := c[a] - own[a]
			if x < 0 {
				x = -x
			}
			if d[a]-x < x {
				x = d[a] - x
			}
			dist[k] += x * x
		}
		pts[k] = c[0]*d[1] + c[1]
		if len(d) == 3 {
			pts[k] += c[2] * d[0] * d[1]
		}
	}
	data := make([]int, node+1)
	pfutil.Voronoi(pts, data, d)
	lab := data[node]
	sym.Assert("range", lab == 0 || lab == 1)
	sym.Assert("nearest of a large domain", lab != 0 || dist[0] <= dist[1])
	sym.Assert("nearest of a large domain", lab != 1 || dist[1] < dist[0])
}

func label(pts []int, node int, d []int, n int) int {
	node = sym.Concrete(node)
	data := make([]int, n)
	pfutil.Voronoi(pts, data[:node+1], d)
	return data[node]
}

func isFirstMin(dist []int, k int) bool {
	ok := true
	for j := range dist {
		if j < k {
			ok = ok && dist[j] > dist[k]
		} else {
			ok = ok && dist[j] >= dist[k]
		}
	}
	return ok
}

func pd2(i, j int, d []int) int {
	a, b := pfutil.Pos(d, i), pfutil.Pos(d, j)
	s := 0
	for k := range a {
		x := a[k] - b[k]
		if x < 0 {
			x = -x
		}
		if d[k]-x < x {
			x = d[k] - x
		}
		s += x * x
	}
	return s
}

func HRotateZero() {
	sym.Bound("rotation by angle 0 and by quarter turns on 3x4, 4x4, 5x3, 1x4, arbitrary data")
	d := ref.Grids("grid", [][]int{{3, 4}, {4, 4}, {5, 3}, {1, 4}})
	g := pfutil.NewGrid(d)
	old := ref.Real("v", len(g.Data), -4, 4)
	copy(g.Data, old)
	g.Rotate2D(0)
	for j := range old {
		sym.Close("identity", g.Data[j], old[j], 0)
	}
}

func HRotate() {
	sym.Bound("rotation of grids 2x3, 3x2, 3x4 (thorough also 4x4, 5x3) by any angle in [-3.2,3.2] whose rotated coordinates stay 1e-6 away from integers, arbitrary data; truncation towards the centre")
	l := [][]int{{2, 3}, {3, 2}, {3, 4}}
	if sym.Thorough() {
		l = append(l, []int{4, 4}, []int{5, 3})
	}
	d := ref.Grids("grid", l)
	g := pfutil.NewGrid(d)
	old := ref.Real("v", len(g.Data), -4, 4)
	copy(g.Data, old)
	t := sym.Float("angle", -3.2, 3.2)
	c, s := math.Cos(t), math.Sin(t)
	cx, cy := d[0]/2, d[1]/2
	p := make([]float64, len(old))
	q := make([]float64, len(old))
	for k := range old {
		x := ref.Crd(d, k)
		u, v := float64(x[0]-cx), float64(x[1]-cy)
		p[k] = u*c - v*s
		q[k] = u*s + v*c
		if u != 0 || v != 0 {
			r := int(math.Sqrt(u*u+v*v) + 1e-6)
			for m := -r; m <= r; m++ {
				sym.Assume(p[k] < float64(m)-1e-6 || p[k] > float64(m)+1e-6)
				sym.Assume(q[k] < float64(m)-1e-6 || q[k] > float64(m)+1e-6)
			}
		}
	}
	g.Rotate2D(t)
	sym.EqInt("size", len(g.Data), len(old))
	for k := range old {
		src := ref.Node(d, []int{cx + int(p[k]), cy + int(q[k])})
		sym.Close("source", g.Data[k], old[sym.Concrete(src)], 0)
	}
}
