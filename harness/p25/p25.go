// Package p25 checks displacements, strains, effective forces and elastic energies.
package p25

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
	"gonum.org/v1/gonum/mat"
)

func dl(i, j int) float64 {
	if i == j {
		return 1
	}
	return 0
}

func each(f func(i, j, k, l int)) {
	for q := 0; q < 81; q++ {
		f(q/27, q/9%3, q/3%3, q%3)
	}
}

// arb is an arbitrary tensor with both minor symmetries and the major one.
func arb(name string, b float64) elasticity.Rank4 {
	c := elasticity.NewRank4()
	pair := [][2]int{{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}
	for p := range pair {
		for q := p; q < 6; q++ {
			v := sym.Float(fmt.Sprintf("%s%d%d", name, p, q), -b, b)
			i, j, k, l := pair[p][0], pair[p][1], pair[q][0], pair[q][1]
			c.Set(i, j, k, l, v)
			c.Set(j, i, k, l, v)
			c.Set(i, j, l, k, v)
			c.Set(j, i, l, k, v)
			c.Set(k, l, i, j, v)
			c.Set(l, k, i, j, v)
			c.Set(k, l, j, i, v)
			c.Set(l, k, j, i, v)
		}
	}
	return c
}

func iso(lam, mu float64) elasticity.Rank4 {
	c := elasticity.NewRank4()
	each(func(i, j, k, l int) {
		c.Set(i, j, k, l, lam*dl(i, j)*dl(k, l)+mu*(dl(i, k)*dl(j, l)+dl(i, l)*dl(j, k)))
	})
	return c
}

func strain(name string, b float64) ([3][3]float64, *mat.Dense) {
	var e [3][3]float64
	m := mat.NewDense(3, 3, nil)
	for i := range e {
		for j := i; j < 3; j++ {
			e[i][j] = sym.Float(fmt.Sprintf("%s%d%d", name, i, j), -b, b)
			e[j][i] = e[i][j]
			m.Set(i, j, e[i][j])
			m.Set(j, i, e[i][j])
		}
	}
	return e, m
}

// HMatrix: the matrix of the displacement equations.
func HMatrix() {
	sym.Bound("arbitrary stiffness with 21 constants in [-100,100], arbitrary frequency in [-0.5,0.5]^3, all nine elements")
	c := arb("c", 100)
	f := []float64{sym.Float("f0", -0.5, 0.5), sym.Float("f1", -0.5, 0.5), sym.Float("f2", -0.5, 0.5)}
	for m := 0; m < 3; m++ {
		for n := 0; n < 3; n++ {
			want := 0.0
			for j := 0; j < 3; j++ {
				for l := 0; l < 3; l++ {
					want += c.At(m, j, n, l) * 2 * math.Pi * f[j] * 2 * math.Pi * f[l]
				}
			}
			sym.Close("element", elasticity.DisplacementMatrixElement(m, n, f, &c), want, 1e-7)
		}
	}
}

// equilibrium asserts 4 pi^2 C_mjnl f_j f_l u_n = F_m.
func equilibrium(c *elasticity.Rank4, f []float64, u, force []complex128) {
	for m := 0; m < 3; m++ {
		s := complex(0, 0)
		for n := 0; n < 3; n++ {
			k := 0.0
			for j := 0; j < 3; j++ {
				for l := 0; l < 3; l++ {
					k += c.At(m, j, n, l) * f[j] * f[l]
				}
			}
			s += complex(4*math.Pi*math.Pi*k, 0) * u[n]
		}
		sym.CloseC("equilibrium", s, force[m], 1e-6)
	}
}

// HIsotropic: any isotropic body and any frequency.
func HIsotropic() {
	sym.Bound("isotropic stiffness with lambda in [0,5] and mu in [0.5,5]; three frequencies in the order zero, arbitrary direction in [-0.5,0.5]^3 with a component of at least 0.1, fixed; arbitrary complex forces in [-1,1]")
	c := iso(sym.Float("lambda", 0, 5), sym.Float("mu", 0.5, 5))
	f := []float64{sym.Float("f0", -0.5, 0.5), sym.Float("f1", -0.5, 0.5), sym.Float("f2", -0.5, 0.5)}
	big := sym.Choose("big", 3)
	if sym.Bool("negative") {
		f[big] = -sym.Float("fbig", 0.1, 0.5)
	} else {
		f[big] = sym.Float("fbig", 0.1, 0.5)
	}
	run(&c, [][]float64{{0, 0, 0}, f, {0.25, -0.125, 0.5}})
}

func run(c *elasticity.Rank4, fs [][]float64) {
	force := make([][]complex128, len(fs))
	keep := make([][]complex128, len(fs))
	for i := range fs {
		force[i] = ref.Cplx(fmt.Sprintf("F%d_", i), 3, -1, 1)
		keep[i] = append([]complex128(nil), force[i]...)
	}
	u := elasticity.Displacements(force, func(i int) []float64 { return fs[i] }, c)
	sym.EqInt("length", len(u), len(fs))
	for i := range fs {
		sym.EqInt("components", len(u[i]), 3)
		for j := range force[i] {
			sym.CloseC("force", force[i][j], keep[i][j], 0)
		}
		if fs[i][0] == 0 && fs[i][1] == 0 && fs[i][2] == 0 {
			for j := range u[i] {
				sym.CloseC("zero", u[i][j], 0, 0)
			}
			continue
		}
		equilibrium(c, fs[i], u[i], keep[i])
	}
}

// HGeneral: anisotropic bodies at fixed directions.
func HGeneral() {
	sym.Bound("stiffness = isotropic (lambda 1, mu 2) plus an arbitrary symmetric part with 21 constants in [-0.05,0.05], or any cubic one with c11 in [3,6], c12 in [0,1], c44 in [0.5,3]; nine directions in three dimensions, among them axes, planes and unpaired frequencies; arbitrary complex forces in [-1,1]")
	var c elasticity.Rank4
	if sym.Choose("material", 2) == 0 {
		c = iso(1, 2)
		d := arb("d", 0.05)
		for i := range d.Data {
			c.Data[i] += d.Data[i]
		}
	} else {
		c = elasticity.CubicMaterial(sym.Float("c11", 3, 6), sym.Float("c12", 0, 1), sym.Float("c44", 0.5, 3))
	}
	dirs := [][]float64{{0.5, 0, 0}, {0, 0.25, 0}, {0, 0, -0.125}, {0.25, 0.25, 0}, {-0.5, 0, 0.25}, {0.125, -0.25, 0.375}, {0, 0.5, 0.5}, {1.0 / 3, 0, 0}, {0.2, -0.4, 0}}
	run(&c, [][]float64{dirs[sym.Choose("direction", len(dirs))], {0, 0, 0}})
}

func freq3(d []int, k int) []float64 {
	f := make([]float64, 3)
	copy(f, ref.F(d, k))
	return f
}

func wrap(d []int) func(i int) []float64 {
	ft := pfutil.NewFFTW(d)
	return func(i int) []float64 {
		f := make([]float64, 3)
		copy(f, ft.Freq(i))
		return f
	}
}

func grids() []int {
	list := [][]int{{2, 3}, {3, 3}, {4, 2}, {2, 2, 2}, {3, 1, 2}, {1, 4}, {1, 3, 1}, {1, 1, 3}, {1, 1, 4}}
	if sym.Thorough() {
		list = append(list, []int{4, 4}, []int{5, 3}, []int{3, 3, 2}, []int{2, 4, 3})
	}
	sym.Bound(fmt.Sprint("grids ", list))
	return ref.Grids("grid", list)
}

func disp(n int) [][]complex128 {
	u := make([][]complex128, n)
	for i := range u {
		u[i] = ref.Cplx(fmt.Sprintf("u%d_", i), 3, -1, 1)
	}
	return u
}

// sgrad is the symmetrised spectral gradient without unpaired frequencies.
func sgrad(d []int, u [][]complex128, m, n int) []complex128 {
	out := make([]complex128, len(u))
	for k := range u {
		f := freq3(d, k)
		for a := range d {
			if ref.Nyq(d, k, a) {
				f[a] = 0
			}
		}
		out[k] = complex(0, math.Pi*f[n])*u[k][m] + complex(0, math.Pi*f[m])*u[k][n]
	}
	return out
}

// HStrain: strains of arbitrary displacements.
func HStrain() {
	d := grids()
	sym.Bound("arbitrary complex displacement amplitudes in [-1,1], all nine components")
	n := ref.Num(d)
	u := disp(n)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			got := elasticity.Strain(u, wrap(d), i, j)
			for k, w := range sgrad(d, u, i, j) {
				sym.CloseC("strain", got[k], w, 1e-9)
			}
		}
	}
}

// HStrainLong: strains on long axes.
func HStrainLong() {
	d := ref.Grids("long", [][]int{{1, 101}, {51, 1}, {1, 100}, {1, 1, 65}, {1, 64, 1}})
	sym.Bound("strains also on axes of up to 101 nodes")
	u := disp(ref.Num(d))
	for i := 0; i < 3; i++ {
		for j := i; j < 3; j++ {
			got := elasticity.Strain(u, wrap(d), i, j)
			for k, w := range sgrad(d, u, i, j) {
				sym.CloseC("strain", got[k], w, 1e-9)
			}
		}
	}
}

// HForce: effective forces from misfits.
func HForce() {
	d := grids()
	sym.Bound("arbitrary stiffness with 21 constants in [-10,10], misfits in [-1,1], complex indicator amplitudes in [-1,1], all components, with two and three component frequencies")
	n := ref.Num(d)
	c := arb("c", 10)
	e, m := strain("e", 1)
	ind := ref.Cplx("h", n, -1, 1)
	keep := append([]complex128(nil), ind...)
	eff := elasticity.NewEffectiveForceFromMisfit(c, m)
	ft := pfutil.NewFFTW(d)
	freq := ft.Freq
	if sym.Bool("wrapped") {
		freq = wrap(d)
	}
	for a := 0; a < 3; a++ {
		got := eff.Get(a, freq, ind)
		for k := range got {
			f := freq3(d, k)
			s := 0.0
			for j := 0; j < 3; j++ {
				for p := 0; p < 3; p++ {
					for q := 0; q < 3; q++ {
						s += c.At(a, j, p, q) * e[p][q] * f[j]
					}
				}
			}
			sym.CloseC("force", got[k], complex(0, -2*math.Pi*s)*keep[k], 1e-7)
			sym.CloseC("indicator", ind[k], keep[k], 0)
		}
	}
}

// HPerturbed: the first order correction force.
func HPerturbed() {
	d := grids()
	sym.Bound("arbitrary stiffness difference with 21 constants in [-10,10], misfits in [-1,1], complex displacement amplitudes in [-1,1], node weights in [-1,1]; transforms of pfutil")
	n := ref.Num(d)
	c := arb("c", 10)
	e, m := strain("e", 1)
	u := disp(n)
	w := ref.Real("w", n, -1, 1)
	got := elasticity.PerturbedForce(pfutil.NewFFTW(d), m, u, func(i int) float64 { return w[i] }, &c)
	sym.EqInt("length", len(got), n)
	var q [3][3][]complex128
	for i := range q {
		for j := range q {
			s := ref.IDFT(d, sgrad(d, u, i, j))
			q[i][j] = make([]complex128, n)
			for x := range s {
				q[i][j][x] = complex((e[i][j]-real(s[x]))*w[x], 0)
			}
			q[i][j] = ref.DFT(d, q[i][j], -1)
		}
	}
	for k := 0; k < n; k++ {
		f := freq3(d, k)
		for a := 0; a < 3; a++ {
			s := complex(0, 0)
			for j := 0; j < 3; j++ {
				for p := 0; p < 3; p++ {
					for r := 0; r < 3; r++ {
						s += complex(c.At(a, j, p, r)*f[j], 0) * q[p][r][k]
					}
				}
			}
			sym.CloseC("correction", got[k][a], complex(0, -2*math.Pi)*s, 1e-6)
		}
	}
}

// HDensity: the energy density is quadratic and, for stable bodies, not negative.
func HDensity() {
	sym.Bound("isotropic bodies with bulk modulus in [0,10] and shear modulus in [0,10], cubic ones with c11-c12, c11+2*c12, c44 in [0,10]; strains in [-1,1], scaled by any factor in [-3,3]")
	var c elasticity.Rank4
	e, m := strain("e", 1)
	tr := e[0][0] + e[1][1] + e[2][2]
	var dev [3][3]float64
	for i := range dev {
		for j := range dev {
			dev[i][j] = e[i][j] - dl(i, j)*tr/3
		}
	}
	want := 0.0
	if sym.Choose("material", 2) == 0 {
		b, mu := sym.Float("bulk", 0, 10), sym.Float("mu", 0, 10)
		c = iso(b-2*mu/3, mu)
		want = 0.5 * b * tr * tr
		for i := range dev {
			for j := range dev {
				want += mu * dev[i][j] * dev[i][j]
			}
		}
	} else {
		p, q, c44 := sym.Float("p", 0, 10), sym.Float("q", 0, 10), sym.Float("c44", 0, 10)
		// c11 - c12 = p, c11 + 2 c12 = q
		c = elasticity.CubicMaterial((2*p+q)/3, (q-p)/3, c44)
		want = q * tr * tr / 6
		for i := range dev {
			for j := range dev {
				if i == j {
					want += 0.5 * p * dev[i][i] * dev[i][i]
				} else {
					want += c44 * e[i][j] * e[i][j]
				}
			}
		}
	}
	en := elasticity.EnergyDensity(&c, m)
	// the reference is a sum of squares with coefficients that are not negative
	sym.Close("density", en, want, 1e-7)
	sym.Assert("sign", want >= 0)
	a := sym.Float("factor", -3, 3)
	s := mat.NewDense(3, 3, nil)
	for i := range e {
		for j := range e {
			s.Set(i, j, a*e[i][j])
		}
	}
	sym.Close("quadratic", elasticity.EnergyDensity(&c, s), a*a*en, 1e-6)
}

// HEnergy: the energy of an inclusion.
func HEnergy() {
	list := [][]int{{1, 3}, {2, 2}, {2, 3}, {1, 4}, {1, 1, 3}, {1, 3, 1}, {2, 1, 2}}
	if sym.Thorough() {
		list = append(list, []int{3, 3}, []int{2, 4}, []int{2, 2, 2})
	}
	sym.Bound(fmt.Sprint("grids ", list, "; every indicator of zeros and ones up to eight nodes with at least one node inside; misfits in [-0.3,0.3], two isotropic bodies and a cubic one"))
	d := ref.Grids("grid", list)
	n := ref.Num(d)
	var c elasticity.Rank4
	switch sym.Choose("material", 3) {
	case 0:
		c = iso(1, 2)
	case 1:
		c = iso(3.5, 0.75)
	case 2:
		c = elasticity.CubicMaterial(4, 1, 2)
	}
	e, m := strain("e", 0.3)
	mask := 1 + sym.Choose("mask", 1<<uint(n)-1)
	ind := make([]complex128, n)
	vol := 0.0
	for i := range ind {
		if mask>>uint(i)&1 == 1 {
			ind[i] = 1
			vol++
		}
	}
	keep := append([]complex128(nil), ind...)
	got := elasticity.HomogeneousModulusEnergy(ind, d, m, c)
	for i := range ind {
		sym.CloseC("indicator", ind[i], keep[i], 1e-9)
	}
	// reference: displacements from equilibrium, strains, energy density
	hk := ref.DFT(d, keep, -1)
	u := make([][]complex128, n)
	for k := range u {
		u[k] = make([]complex128, 3)
		f := freq3(d, k)
		if k == 0 {
			continue
		}
		a := mat.NewDense(3, 3, nil)
		var v [3]float64
		for p := 0; p < 3; p++ {
			for j := 0; j < 3; j++ {
				for q := 0; q < 3; q++ {
					for l := 0; l < 3; l++ {
						v[p] += c.At(p, j, q, l) * e[q][l] * f[j]
					}
					s := a.At(p, q)
					for l := 0; l < 3; l++ {
						s += c.At(p, j, q, l) * f[j] * f[l]
					}
					a.Set(p, q, s)
				}
			}
		}
		inv := mat.NewDense(3, 3, nil)
		inv.Inverse(a)
		for p := 0; p < 3; p++ {
			s := 0.0
			for q := 0; q < 3; q++ {
				s += inv.At(p, q) * v[q]
			}
			u[k][p] = complex(0, -s/(2*math.Pi)) * hk[k]
		}
	}
	var eps [3][3][]complex128
	for i := range eps {
		for j := range eps {
			eps[i][j] = ref.IDFT(d, sgrad(d, u, i, j))
		}
	}
	tot := 0.0
	for x := 0; x < n; x++ {
		var el [3][3]float64
		for i := range el {
			for j := range el {
				el[i][j] = real(eps[i][j][x]) - e[i][j]*real(keep[x])
			}
		}
		each(func(i, j, k, l int) { tot += 0.5 * c.At(i, j, k, l) * el[i][j] * el[k][l] })
	}
	sym.Close("energy", got, tot/vol, 1e-6)
}

// HInclusion: the strain energy of an ellipsoidal inclusion. The existing tests pin that a separate stiffness of the
// inclusion enters the energy of every node (only the correction force is confined to the inclusion).
func HInclusion() {
	size := 2
	if sym.Thorough() {
		size = 2 + sym.Choose("size", 2)
	}
	sym.Bound("domains of 2x2x2 (thorough also 3x3x3) nodes, half axes from 0.6, 1.2 and 2, arbitrary misfits in [-0.3,0.3] in Voigt order, stiff cubic and isotropic matrices, inclusion without own stiffness or with an arbitrary stiffness with 21 constants in [-1,1], with and without first order correction")
	ax := []float64{0.6, 1.2, 2}
	h := [3]float64{ax[sym.Choose("a", 3)], ax[sym.Choose("b", 3)], ax[sym.Choose("c", 3)]}
	d := []int{size, size, size}
	n := ref.Num(d)
	c := iso(1, 2)
	if sym.Choose("material", 2) == 1 {
		c = elasticity.CubicMaterial(4, 1, 2)
	}
	misfit := make([]float64, 6)
	var e [3][3]float64
	m := mat.NewDense(3, 3, nil)
	pair := [][2]int{{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}
	for p, ij := range pair {
		misfit[p] = sym.Float(fmt.Sprintf("e%d", p), -0.3, 0.3)
		v := misfit[p]
		if p > 2 {
			v *= 0.5
		}
		e[ij[0]][ij[1]], e[ij[1]][ij[0]] = v, v
		m.Set(ij[0], ij[1], v)
		m.Set(ij[1], ij[0], v)
	}
	flat := func(t *elasticity.Rank4) []float64 {
		v := make([]float64, 36)
		for p, ij := range pair {
			for q, kl := range pair {
				v[6*p+q] = t.At(ij[0], ij[1], kl[0], kl[1])
			}
		}
		return v
	}
	in := elasticity.StrainEnergyInput{HalfA: h[0], HalfB: h[1], HalfC: h[2], Misfit: misfit, MatPropMatrix: flat(&c), DomainSize: size}
	diff := elasticity.NewRank4()
	if sym.Bool("own") {
		own := arb("o", 1)
		in.MatPropInc = flat(&own)
		in.ApplyPerturbation = sym.Bool("correct")
		for i := range diff.Data {
			diff.Data[i] = own.Data[i] - c.Data[i]
		}
	}
	got := elasticity.CalculateStrainEnergy(in)

	ind := make([]complex128, n)
	for i := range ind {
		x := ref.Crd(d, i)
		v := 0.0
		for a := range x {
			y := float64(x[a] - size/2)
			v += y * y / (h[a] * h[a])
		}
		if v <= 1 {
			ind[i] = 1
		}
	}
	// balance solves for the displacements of a body force
	balance := func(force [][3]complex128) [][]complex128 {
		u := make([][]complex128, n)
		for k := range u {
			u[k] = make([]complex128, 3)
			f := freq3(d, k)
			if k == 0 {
				continue
			}
			a := mat.NewDense(3, 3, nil)
			for p := 0; p < 3; p++ {
				for q := 0; q < 3; q++ {
					s := 0.0
					for j := 0; j < 3; j++ {
						for l := 0; l < 3; l++ {
							s += c.At(p, j, q, l) * f[j] * f[l]
						}
					}
					a.Set(p, q, 4*math.Pi*math.Pi*s)
				}
			}
			inv := mat.NewDense(3, 3, nil)
			inv.Inverse(a)
			for p := 0; p < 3; p++ {
				for q := 0; q < 3; q++ {
					u[k][p] += complex(inv.At(p, q), 0) * force[k][q]
				}
			}
		}
		return u
	}
	// divergence of the stress t:q per node, negative
	div := func(t *elasticity.Rank4, q [3][3][]complex128) [][3]complex128 {
		out := make([][3]complex128, n)
		for k := range out {
			f := freq3(d, k)
			each(func(i, j, p, l int) { out[k][i] -= complex(0, 2*math.Pi*t.At(i, j, p, l)*f[j]) * q[p][l][k] })
		}
		return out
	}
	elastic := func(u [][]complex128, w []complex128, sign float64) (out [3][3][]complex128) {
		for i := range out {
			for j := range out {
				out[i][j] = ref.IDFT(d, sgrad(d, u, i, j))
				for x := range out[i][j] {
					out[i][j][x] = complex(real(out[i][j][x]), 0)
				}
				for x := range w {
					out[i][j][x] = complex(sign, 0) * (out[i][j][x] - complex(e[i][j], 0)*w[x])
				}
			}
		}
		return
	}
	var q [3][3][]complex128
	for i := range q {
		for j := range q {
			q[i][j] = ref.DFT(d, ind, -1)
			for k := range q[i][j] {
				q[i][j][k] *= complex(e[i][j], 0)
			}
		}
	}
	u := balance(div(&c, q))
	if in.ApplyPerturbation {
		one := make([]complex128, n)
		for i := range one {
			one[i] = 1
		}
		q = elastic(u, one, -1)
		for i := range q {
			for j := range q {
				for x := range ind {
					q[i][j][x] *= ind[x]
				}
				q[i][j] = ref.DFT(d, q[i][j], -1)
			}
		}
		for k, v := range balance(div(&diff, q)) {
			for p := range v {
				u[k][p] += v[p]
			}
		}
	}
	el := elastic(u, ind, 1)
	tot := 0.0
	for x := 0; x < n; x++ {
		each(func(i, j, k, l int) {
			tot += 0.5 * (c.At(i, j, k, l) + diff.At(i, j, k, l)) * real(el[i][j][x]) * real(el[k][l][x])
		})
	}
	sym.Close("energy", got, tot/(4*math.Pi*h[0]*h[1]*h[2]/3), 1e-6)
}

// HEllipsoid: the voxels of an ellipsoid.
func HEllipsoid() {
	sym.Bound("cubes of 1 to 3 (thorough 4) nodes, arbitrary half axes in [0.3,4]")
	size := 1 + sym.Choose("size", 3)
	if sym.Thorough() {
		size = 1 + sym.Choose("larger", 4)
	}
	h := []float64{sym.Float("a", 0.3, 4), sym.Float("b", 0.3, 4), sym.Float("c", 0.3, 4)}
	got := elasticity.Ellipsoid(size, h[0], h[1], h[2])
	d := []int{size, size, size}
	for i := 0; i < ref.Num(d); i++ {
		x := ref.Crd(d, i)
		v := 0.0
		for a := range x {
			y := float64(x[a] - size/2)
			v += y * y / (h[a] * h[a])
		}
		g := got.At(x[0], x[1], x[2])
		if v <= 1-1e-9 {
			sym.CloseC("inside", g, 1, 0)
		} else if v >= 1+1e-9 {
			sym.CloseC("outside", g, 0, 0)
		} else {
			sym.Assert("edge", g == 0 || g == 1)
		}
	}
}
