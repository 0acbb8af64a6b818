// Package p27 checks the mode solver and the elastic fit. The minimiser is replaced by a stand-in that looks at the
// problem it was given and returns arbitrary points, so nothing is assumed about where it stops.
package p27

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/zverif/optimize"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
	"gonum.org/v1/gonum/mat"
)

// family lists the signed permutations of m, in two dimensions those with the last index zero.
func family(m pfc.Miller, dim int) [][3]int {
	x := [3]int{m.H, m.K, m.L}
	seen := map[[3]int]bool{}
	var out [][3]int
	for _, p := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		for s := 0; s < 8; s++ {
			y := [3]int{x[p[0]], x[p[1]], x[p[2]]}
			for a := range y {
				if s>>uint(a)&1 == 1 {
					y[a] = -y[a]
				}
			}
			if (dim == 3 || y[2] == 0) && !seen[y] {
				seen[y] = true
				out = append(out, y)
			}
		}
	}
	return out
}

// closed counts the choices of one vector of every family that sum to zero: the integral of the product.
func closed(fs [][][3]int) int {
	sums := map[[3]int]int{{}: 1}
	for _, f := range fs {
		next := map[[3]int]int{}
		for s, n := range sums {
			for _, v := range f {
				next[[3]int{s[0] + v[0], s[1] + v[1], s[2] + v[2]}] += n
			}
		}
		sums = next
	}
	return sums[[3]int{}]
}

type set struct {
	dim   int
	modes []pfc.Miller
}

func m(h, k, l int) pfc.Miller { return pfc.Miller{H: h, K: k, L: l} }

func sets() set {
	list := []set{
		{2, []pfc.Miller{m(1, 0, 0)}},
		{2, []pfc.Miller{m(1, 0, 0), m(1, 1, 0)}},
		{2, []pfc.Miller{m(1, 0, 0), m(2, 1, 0)}},
		{3, []pfc.Miller{m(1, 1, 0)}},
	}
	if sym.Thorough() {
		list = append(list, set{2, []pfc.Miller{m(1, 0, 0), m(1, 1, 0), m(2, 0, 0)}}, set{3, []pfc.Miller{m(1, 1, 1), m(2, 0, 0)}}, set{3, []pfc.Miller{m(1, 1, 0), m(2, 0, 0)}})
	}
	sym.Bound(fmt.Sprint("dimension and modes ", list))
	return list[sym.Choose("modes", len(list))]
}

func (s set) cell() pfc.ReciprocalCell {
	c := pfc.SC2D(4)
	if s.dim == 3 {
		c = pfc.SC3D(4)
	}
	return c.Reciprocal()
}

// energy is the energy polynomial: powers of every mode and their coefficients.
func (s set) energy(c3, c4 float64) (pow [][]int, coef []float64) {
	n := len(s.modes)
	fam := make([][][3]int, n)
	for i := range fam {
		fam[i] = family(s.modes[i], s.dim)
	}
	for total := 3; total <= 4; total++ {
		count := 1
		for i := 0; i < total; i++ {
			count *= n
		}
		byPow := map[string]int{}
		for t := 0; t < count; t++ {
			p := make([]int, n)
			var fs [][][3]int
			for i, r := 0, t; i < total; i, r = i+1, r/n {
				p[r%n]++
				fs = append(fs, fam[r%n])
			}
			c := float64(closed(fs))
			if total == 3 {
				c *= -c3 / 6
			} else {
				c *= c4 / 12
			}
			key := fmt.Sprint(p)
			if at, ok := byPow[key]; ok {
				coef[at] += c
			} else {
				byPow[key] = len(pow)
				pow, coef = append(pow, p), append(coef, c)
			}
		}
	}
	return
}

func power(x float64, p int) float64 {
	v := 1.0
	for ; p > 0; p-- {
		v *= x
	}
	return v
}

// eval differentiates the polynomial with respect to the listed amplitudes.
func eval(pow [][]int, coef []float64, a []float64, by ...int) float64 {
	tot := 0.0
	for t := range pow {
		p := append([]int(nil), pow[t]...)
		c := coef[t]
		for _, d := range by {
			c *= float64(p[d])
			if p[d] > 0 {
				p[d]--
			}
		}
		for i := range a {
			c *= power(a[i], p[i])
		}
		tot += c
	}
	return tot
}

func mix() (pfc.IdealMix, float64, float64) {
	c3, c4 := sym.Float("C3", 0.2, 2), sym.Float("C4", 0.2, 2)
	return pfc.IdealMix{C3: c3, C4: c4}, c3, c4
}

// HProblem: the function, gradient and Hessian handed to the minimiser.
func HProblem() {
	s := sets()
	sym.Bound("mixture constants in [0.2,2]; function, gradient and Hessian at arbitrary amplitudes in [-1,1], called twice; terms below 1e-4 of the largest coefficient may be missing")
	im, c3, c4 := mix()
	ms := pfc.ModeSolver{IdealMix: im, Miller: s.modes, ReciprocalCell: s.cell()}
	n := len(s.modes)
	pow, coef := s.energy(c3, c4)
	x0 := ref.Real("x", n, -1, 1)
	calls := 0
	optimize.Hook = func(p optimize.Problem, x []float64, _ *optimize.Settings, _ optimize.Method) (*optimize.Result, error) {
		calls++
		for i := range x0 {
			sym.Close("start", x[i], x0[i], 0)
		}
		for rep := 0; rep < 2; rep++ {
			a := ref.Real(fmt.Sprintf("a%d_", rep), n, -1, 1)
			keep := append([]float64(nil), a...)
			sym.Close("energy", p.Func(a), eval(pow, coef, keep), 1e-5)
			if p.Grad != nil {
				g := ref.Real(fmt.Sprintf("junk%d_", rep), n, -1, 1)
				p.Grad(g, a)
				for i := range g {
					sym.Close("gradient", g[i], eval(pow, coef, keep, i), 1e-5)
				}
			}
			if p.Hess != nil {
				h := mat.NewSymDense(n, nil)
				for i := 0; i < n; i++ {
					for j := i; j < n; j++ {
						h.SetSym(i, j, sym.Float(fmt.Sprintf("junk%d_%d%d", rep, i, j), -1, 1))
					}
				}
				p.Hess(h, a)
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						sym.Close("hessian", h.At(i, j), eval(pow, coef, keep, i, j), 1e-5)
					}
				}
			}
			for i := range a {
				sym.Close("argument", a[i], keep[i], 0)
			}
		}
		return &optimize.Result{Location: optimize.Location{X: x, F: p.Func(x)}}, nil
	}
	ms.Solve(&pfc.SinglePointExplorer{X0: append([]float64(nil), x0...)})
	sym.EqInt("calls", calls, 1)
}

type explorer struct {
	starts [][]float64
	at     int
	seen   []*optimize.Result
}

func (e *explorer) Next() []float64 {
	if e.at == len(e.starts) {
		return nil
	}
	e.at++
	return e.starts[e.at-1]
}

func (e *explorer) OnMinimizationFinished(r *optimize.Result) { e.seen = append(e.seen, r) }

// HBest: the best of all minima is returned with its own amplitudes.
func HBest() {
	sym.Bound("modes [100] and [110] in two dimensions, one to two (thorough four) starting points, the minimiser returns arbitrary amplitudes in [-0.5,0.5] with their energy; explorers of the harness and the default one")
	s := set{2, []pfc.Miller{m(1, 0, 0), m(1, 1, 0)}}
	c3, c4 := 1.0, 1.0
	ms := pfc.ModeSolver{IdealMix: pfc.IdealMix{C3: c3, C4: c4}, Miller: s.modes, ReciprocalCell: s.cell()}
	pow, coef := s.energy(c3, c4)
	max := 2
	if sym.Thorough() {
		max = 4
	}
	n := 1 + sym.Choose("starts", max+1)
	var ex pfc.InitialGuessExplorer
	var mine *explorer
	if n <= max {
		mine = &explorer{}
		for i := 0; i < n; i++ {
			mine.starts = append(mine.starts, ref.Real(fmt.Sprintf("s%d_", i), 2, -1, 1))
		}
		ex = mine
	} else if !sym.Thorough() {
		return
	}
	var found [][]float64
	var starts [][]float64
	optimize.Hook = func(p optimize.Problem, x []float64, _ *optimize.Settings, _ optimize.Method) (*optimize.Result, error) {
		starts = append(starts, append([]float64(nil), x...))
		a := ref.Real(fmt.Sprintf("a%d_", len(found)), 2, -0.5, 0.5)
		found = append(found, append([]float64(nil), a...))
		return &optimize.Result{Location: optimize.Location{X: a, F: p.Func(a)}}, nil
	}
	res := ms.Solve(ex)
	if mine != nil {
		sym.EqInt("explored", len(found), n)
		sym.EqInt("told", len(mine.seen), n)
		for i := range starts {
			for j := range starts[i] {
				sym.Close("start", starts[i][j], mine.starts[i][j], 0)
			}
		}
	} else {
		sym.EqInt("explored", len(found), 4)
	}
	sym.EqInt("amplitudes", len(res.Amplitudes), 2)
	sym.Close("belongs", res.Energy, eval(pow, coef, res.Amplitudes), 1e-5)
	sym.Assert("liquid", res.Energy <= 0)
	for i := range found {
		sym.Assert("best", res.Energy <= eval(pow, coef, found[i])+1e-5)
	}
}

// HOctants: the default explorer visits every combination of signs once.
func HOctants() {
	sym.Bound("one to three modes with arbitrary starting amplitudes in [0.01,2]")
	n := 1 + sym.Choose("modes", 3)
	x0 := ref.Real("x", n, 0.01, 2)
	h := pfc.HyperOctantExplorer{X0: append([]float64(nil), x0...)}
	seen := map[int]bool{}
	for i := 0; i < 1<<uint(n); i++ {
		x := h.Next()
		if x == nil {
			sym.Fail("early")
			return
		}
		sym.EqInt("length", len(x), n)
		mask := 0
		for j := range x {
			if x[j] > 0 {
				mask |= 1 << uint(j)
				sym.Close("magnitude", x[j], x0[j], 0)
			} else {
				sym.Close("magnitude", -x[j], x0[j], 0)
			}
			x[j] = 7 // the minimiser may use the slice
		}
		sym.Assert("once", !seen[mask])
		seen[mask] = true
	}
	sym.Assert("end", h.Next() == nil)
	s := pfc.SinglePointExplorer{X0: x0}
	x := s.Next()
	for j := range x0 {
		sym.Close("single", x[j], x0[j], 0)
	}
	sym.Assert("end", s.Next() == nil)
	sym.Assert("end", s.Next() == nil)
}

// HDensity: the density of a mode at any position.
func HDensity() {
	sym.Bound("modes [100], [110], [111], [200], [210], [211], scaled positions arbitrary in [-1,2] in two and three dimensions")
	modes := []pfc.Miller{m(1, 0, 0), m(1, 1, 0), m(1, 1, 1), m(2, 0, 0), m(0, 2, 1), m(-1, 2, 1)}
	k := sym.Choose("mode", len(modes))
	dim := 2 + sym.Choose("dim", 2)
	pos := ref.Real("s", dim, -1, 2)
	ms := pfc.ModeSolver{Miller: modes}
	want := 0.0
	for _, v := range family(modes[k], dim) {
		arg := 0.0
		for a := range pos {
			arg += float64(v[a]) * pos[a]
		}
		want += math.Cos(2 * math.Pi * arg)
	}
	sym.Close("density", ms.ModeDensity(k, pos), want, 1e-9)
}

// HIntegral: unit cell integrals count the closed polygons of reciprocal vectors.
func HIntegral() {
	sym.Bound("two dimensions: modes [100] and [110], all powers up to a total of three with 14 points; three dimensions: [100] squared, [100]x[110] and [110] squared with 10 points; quadrature executed as written")
	ms := pfc.ModeSolver{Miller: []pfc.Miller{m(1, 0, 0), m(1, 1, 0)}}
	dim := 2 + sym.Choose("dim", 2)
	s := set{dim, ms.Miller}
	ms.ReciprocalCell = s.cell()
	var pows [][]int
	order := 14
	if dim == 2 {
		pows = [][]int{{0, 0}, {1, 0}, {0, 1}, {2, 0}, {1, 1}, {0, 2}, {3, 0}, {2, 1}, {1, 2}, {0, 3}}
	} else {
		pows = [][]int{{2, 0}, {1, 1}, {0, 2}}
		order = 10
		if !sym.Thorough() {
			pows = pows[:1]
		}
	}
	p := pows[sym.Choose("powers", len(pows))]
	var fs [][][3]int
	for i, k := range p {
		for ; k > 0; k-- {
			fs = append(fs, family(ms.Miller[i], dim))
		}
	}
	sym.Close("integral", ms.UnitcellIntegral(p, order), float64(closed(fs)), 1e-4)
}

// HQuad: the quadrature is exact for polynomials.
func HQuad() {
	sym.Bound("two to five points per direction; polynomials with arbitrary coefficients in [-3,3] and degree up to three in every direction")
	n := 2 + sym.Choose("points", 4)
	cube := sym.Bool("cube")
	dz := 1
	if cube {
		dz = 4
	}
	want := 0.0
	c := make([]float64, 16*dz)
	for i := range c {
		c[i] = sym.Float(fmt.Sprintf("c%d", i), -3, 3)
		want += c[i] / float64((i%4+1)*(i/4%4+1)*(i/16+1))
	}
	f := func(x, y, z float64) float64 {
		s := 0.0
		for i := range c {
			s += c[i] * power(x, i%4) * power(y, i/4%4) * power(z, i/16)
		}
		return s
	}
	if cube {
		sym.Close("cube", pfc.QuadCube(f, n), want, 1e-8)
	} else {
		sym.Close("square", pfc.QuadSquare(func(x, y float64) float64 { return f(x, y, 0) }, n), want, 1e-8)
	}
}

// stiff is the documented contribution m_t Q_su m_v of a mode to C_stuv.
func stiff(mi pfc.Miller, q *mat.Dense, s, t, u, v int) float64 {
	x := [3]int{mi.H, mi.K, mi.L}
	return float64(x[t]) * q.At(s, u) * float64(x[v])
}

// weight is the average of the stiffness contributions for a property.
func weight(name string, mi pfc.Miller, q *mat.Dense) float64 {
	dim, _ := q.Dims()
	diag, off, shear := 0.0, 0.0, 0.0
	for i := 0; i < dim; i++ {
		diag += stiff(mi, q, i, i, i, i)
		for j := i + 1; j < dim; j++ {
			off += stiff(mi, q, i, i, j, j)
			shear += stiff(mi, q, i, j, i, j)
		}
	}
	switch name {
	case "bulk":
		return (diag + 2*off) / 9
	case "shear":
		return (diag - off + 3*shear) / 15
	case "area":
		return (diag + 2*off) / 4
	}
	return (diag - 2*off + 4*stiff(mi, q, 1, 0, 1, 0)) / 8
}

func fit() (pfc.ModeSolver, map[string]float64, []string, *mat.Dense) {
	dim := 2 + sym.Choose("dim", 2)
	c := mat.NewDense(dim, dim, nil)
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			c.Set(i, j, sym.Float(fmt.Sprintf("c%d%d", i, j), -2, 2))
		}
	}
	q := mat.NewDense(dim, dim, nil)
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			v := 0.0
			for k := 0; k < dim; k++ {
				v += c.At(k, i) * c.At(k, j)
			}
			q.Set(i, j, v)
		}
	}
	lists := [][]pfc.Miller{{m(1, 1, 1)}, {m(1, 1, 0), m(2, 0, 0)}, {m(1, 0, 1), m(-1, 2, 0), m(0, 1, 0)}}
	if dim == 2 {
		lists = [][]pfc.Miller{{m(1, 0, 0)}, {m(1, 1, 0), m(2, 0, 0)}, {m(1, 0, 0), m(-1, 2, 0), m(0, 3, 0)}}
	}
	ms := pfc.ModeSolver{Miller: lists[sym.Choose("list", 3)], ReciprocalCell: pfc.ReciprocalCell{CellVec: c}}
	names := []string{"bulk", "shear"}
	if dim == 2 {
		names = []string{"area", "xyshear"}
	}
	k := sym.Choose("properties", 3)
	if k < 2 {
		names = names[k : k+1]
	}
	target := map[string]float64{}
	for _, n := range names {
		target[n] = sym.Float(n, -20, 100)
	}
	return ms, target, names, q
}

// HFit: the problem and the result of the elastic fit.
func HFit() {
	sym.Bound("arbitrary reciprocal cells with entries in [-2,2] in two and three dimensions, three lists of one to three modes each, one or both properties with targets in [-20,100], function and gradient at arbitrary amplitudes in [-2,2]; with fewer properties than modes a penalty of 1e-6 per fourth power")
	ms, target, names, q := fit()
	n := len(ms.Miller)
	pen := 0.0
	if len(names) < n {
		pen = 1e-6
	}
	keep := map[string]float64{}
	for k, v := range target {
		keep[k] = v
	}
	var ans []float64
	optimize.Hook = func(p optimize.Problem, x []float64, _ *optimize.Settings, _ optimize.Method) (*optimize.Result, error) {
		sym.EqInt("start", len(x), n)
		a := ref.Real("a", n, -2, 2)
		arg := append([]float64(nil), a...)
		want := 0.0
		g := make([]float64, n)
		for _, k := range names {
			d := keep[k]
			for i := range a {
				d -= a[i] * a[i] * weight(k, ms.Miller[i], q)
			}
			want += d * d
			for i := range a {
				g[i] -= 4 * d * a[i] * weight(k, ms.Miller[i], q)
			}
		}
		for i := range a {
			want += pen * a[i] * a[i] * a[i] * a[i]
			g[i] += 4 * pen * a[i] * a[i] * a[i]
		}
		sym.Close("function", p.Func(arg), want, 1e-6)
		if p.Grad != nil {
			got := ref.Real("junk", n, -1, 1)
			p.Grad(got, arg)
			for i := range g {
				sym.Close("gradient", got[i], g[i], 1e-6)
			}
		}
		for i := range a {
			sym.Close("argument", arg[i], a[i], 0)
		}
		ans = ref.Real("r", n, -2, 2)
		return &optimize.Result{Location: optimize.Location{X: append([]float64(nil), ans...), F: p.Func(ans)}}, nil
	}
	res := ms.MatchElasticProp(target)
	sym.EqInt("amplitudes", len(res.Amp), n)
	for i := range ans {
		sym.Close("amplitude", res.Amp[i], ans[i], 0)
	}
	sym.EqInt("properties", len(res.Fit), len(names))
	for _, k := range names {
		v := 0.0
		for i := range ans {
			v += ans[i] * ans[i] * weight(k, ms.Miller[i], q)
		}
		got, ok := res.Fit[k]
		sym.Assert("reported", ok)
		sym.Close("fit", got, v, 1e-6)
	}
	// an unknown property is refused
	sym.Assert("unknown", sym.Panics(func() { ms.MatchElasticProp(map[string]float64{"bulk": 1, "young": 2}) }))
}

// HWidths: peak widths from amplitudes.
func HWidths() {
	sym.Bound("as for the fit; mode amplitudes in [-2,2]; fit amplitudes of magnitude 0.1 to 3 and either sign")
	ms, target, names, q := fit()
	n := len(ms.Miller)
	dim, _ := q.Dims()
	ans := make([]float64, n)
	optimize.Hook = func(p optimize.Problem, x []float64, _ *optimize.Settings, _ optimize.Method) (*optimize.Result, error) {
		for i := range ans {
			ans[i] = sym.Float(fmt.Sprintf("r%d", i), 0.1, 3)
			if sym.Bool(fmt.Sprintf("neg%d", i)) {
				ans[i] = -ans[i]
			}
		}
		return &optimize.Result{Location: optimize.Location{X: append([]float64(nil), ans...)}}, nil
	}
	amp := ref.Real("amp", n, -2, 2)
	res := ms.PeakWidths(target, amp)
	sym.EqInt("widths", len(res.Widths), n)
	for i, w := range res.Widths {
		sym.Assert("sign", w >= 0)
		beta := float64(len(family(ms.Miller[i], dim)))
		// w^2 h^2 = beta/2 A^2
		sym.Close("width", w*w*ans[i]*ans[i], 0.5*beta*amp[i]*amp[i], 1e-6)
	}
	for _, k := range names {
		v := 0.0
		for i := range ans {
			v += ans[i] * ans[i] * weight(k, ms.Miller[i], q)
		}
		sym.Close("fit", res.Fit[k], v, 1e-6)
	}
}

// HMix: the ideal mixture and its derivative.
func HMix() {
	sym.Bound("constants in [-5,5], densities in [-3,3]")
	c3, c4, x := sym.Float("C3", -5, 5), sym.Float("C4", -5, 5), sym.Float("n", -3, 3)
	im := pfc.IdealMix{C3: c3, C4: c4}
	sym.Close("energy", im.Eval(x), x*x/2-c3*x*x*x/6+c4*x*x*x*x/12, 1e-8)
	sym.Close("derivative", im.Deriv(x), x-c3*x*x/2+c4*x*x*x/3, 1e-8)
	sym.Close("prefactors", im.QuadraticPrefactor(), 0.5, 0)
	sym.Close("prefactors", im.ThirdOrderPrefactor(), -c3/6, 1e-12)
	sym.Close("prefactors", im.FourthOrderPrefactor(), c4/12, 1e-12)
}
