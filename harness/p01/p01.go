package p01

import (
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

func dims(nd, max int) []int {
	d := []int{sym.Int("d0", 1, max), sym.Int("d1", 1, max)}
	if nd == 3 {
		d = append(d, sym.Int("d2", 1, max))
	}
	return d
}

func HPosIdx2() {
	sym.Bound("node number to coordinates and back: 2D domain sizes 1..64 per axis, every node")
	posIdx(2, 64)
}

func HPosIdx3() {
	sym.Bound("node number to coordinates and back: 3D domain sizes 1..16 per axis, every node")
	posIdx(3, 16)
}

func posIdx(nd, max int) {
	d := dims(nd, max)
	n := d[0] * d[1]
	if nd == 3 {
		n *= d[2]
	}
	k := sym.Int("node", 0, max*max*max)
	sym.Assume(k < n)
	p := pfutil.Pos(d, k)
	sym.EqInt("rank", len(p), nd)
	for a := range p {
		sym.Assert("inrange", p[a] >= 0 && p[a] < d[a])
	}
	sym.EqInt("roundtrip", pfutil.NodeIdx(d, p), k)
	sym.EqInt("prod", pfutil.ProdInt(d), n)
}

func HIdxLayout2() {
	sym.Bound("coordinates to node number: 2D sizes 1..64, every coordinate pair")
	d := dims(2, 64)
	x := []int{sym.Int("x0", 0, 63), sym.Int("x1", 0, 63)}
	sym.Assume(x[0] < d[0])
	sym.Assume(x[1] < d[1])
	sym.EqInt("layout", pfutil.NodeIdx(d, x), x[0]*d[1]+x[1])
	sym.Assert("below", pfutil.NodeIdx(d, x) < d[0]*d[1])
}

func HIdxLayout3() {
	sym.Bound("coordinates to node number: 3D sizes 1..16, every coordinate triple")
	d := dims(3, 16)
	x := []int{sym.Int("x0", 0, 15), sym.Int("x1", 0, 15), sym.Int("x2", 0, 15)}
	for a := range x {
		sym.Assume(x[a] < d[a])
	}
	sym.EqInt("layout", pfutil.NodeIdx(d, x), x[1]+d[1]*(x[0]+d[0]*x[2]))
}

func HWrap() {
	sym.Bound("wrapping: axis lengths 1..16 (quick) or 1..40 (thorough), positions within +-4 domain lengths, two and three axes")
	max := 16
	if sym.Thorough() {
		max = 40
	}
	n := sym.Int("n", 1, max)
	m := sym.Int("m", 1, 7)
	x := sym.Int("x", -4*max, 4*max)
	y := sym.Int("y", -30, 30)
	p := []int{x, y, 0}
	pfutil.Wrap(p, []int{n, m, 5})
	sym.Assert("in", p[0] >= 0 && p[0] < n && p[1] >= 0 && p[1] < m)
	sym.EqInt("whole", (p[0]-x)%n, 0)
	sym.EqInt("whole2", (p[1]-y)%m, 0)
	sym.EqInt("zero", p[2], 0)
}

var gl = [][]int{{3, 4}, {4, 2}, {1, 5}, {2, 3, 4}, {3, 1, 2}}

func HGridSetGet() {
	sym.Bound("grid access on 3x4, 4x2, 1x5, 2x3x4, 3x1x2: arbitrary values, every pair of nodes")
	d := ref.Grids("grid", gl)
	g := pfutil.NewGrid(d)
	n := ref.Num(d)
	sym.EqInt("size", len(g.Data), n)
	old := make([]float64, n)
	for k := range old {
		old[k] = sym.Float("v", -100, 100)
		g.Data[k] = old[k]
	}
	cp := g.Copy()
	k := sym.Concrete(sym.Int("node", 0, n-1))
	w := sym.Float("w", -100, 100)
	x := ref.Crd(d, k)
	sym.Assert("index", g.Index(x) == k)
	px := g.Pos(k)
	for a := range x {
		sym.EqInt("pos", px[a], x[a])
	}
	g.Set(x, w)
	for j := 0; j < n; j++ {
		want := old[j]
		if j == k {
			want = w
		}
		sym.Close("after", g.Get(ref.Crd(d, j)), want, 0)
		sym.Close("data", g.Data[j], want, 0)
		sym.Close("copy", cp.Get(ref.Crd(d, j)), old[j], 0)
	}
	// the other direction: writing the copy leaves the grid alone
	cp.Set(x, w+1)
	sym.Close("orig", g.Get(x), w, 0)
	cp.Dims[0]++
	sym.EqInt("dims", g.Dims[0], d[0])
}

func HGridComplex() {
	sym.Bound("conversion between grid and complex array on the same grids")
	d := ref.Grids("grid", gl)
	g := pfutil.NewGrid(d)
	n := ref.Num(d)
	for k := range g.Data {
		g.Data[k] = sym.Float("v", -100, 100)
	}
	c := g.ToComplex()
	sym.EqInt("len", len(c), n)
	for k := range c {
		sym.CloseC("tocomplex", c[k], complex(g.Data[k], 0), 0)
	}
	z := ref.Cplx("z", n, -10, 10)
	g.FromComplex(z)
	for k := range z {
		sym.Close("fromcomplex", g.Data[k], real(z[k]), 0)
	}
}
