package mdl

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
	"gonum.org/v1/gonum/mat"
)

// wrap makes terms whose step notification has another signature (or is missing) pure terms.
type wrap struct {
	c func(b map[string]pf.Brick) pf.Term
}

func (w *wrap) Construct(b map[string]pf.Brick) pf.Term         { return w.c(b) }
func (w *wrap) OnStepFinished(t float64, b map[string]pf.Brick) {}

// Wrap wraps a Construct method.
func Wrap(c func(b map[string]pf.Brick) pf.Term) pf.PureTerm { return &wrap{c} }

// Built is a model with the fields conc and eta and the equation of one built-in term.
type Built struct {
	D    []int
	N    int
	FT   *pfutil.FFTWWrapper
	M    pf.Model
	Init [][]float64
}

// Fields starts a model with two arbitrary real fields in [-lim,lim].
func Fields(d []int, names []string, lim float64) *Built {
	b := &Built{D: d, N: ref.Num(d), FT: pfutil.NewFFTW(d), M: pf.NewModel()}
	for _, s := range names {
		x := ref.Real(s, b.N, -lim, lim)
		b.Init = append(b.Init, x)
		b.M.AddField(pf.NewField(s, b.N, ref.ToC(x)))
	}
	return b
}

func (b *Built) scalar(name string, lo, hi float64) float64 {
	v := sym.Float(name, lo, hi)
	b.M.AddScalar(pf.NewScalar(name, complex(v, 0)))
	return v
}

// Finish adds an equation without dynamics for the remaining fields.
func (b *Built) eq(rhs string) {
	b.M.AddEquation("dconc/dt = " + rhs)
	if len(b.Init) > 1 {
		b.M.RegisterExplicitTerm("NOTHING", &Term{F: func(map[string]pf.Brick, []float64, float64, int) complex128 { return 0 }}, nil)
		b.M.AddEquation("deta/dt = NOTHING")
	}
}

// Peak makes a pair correlation function with one or two concrete peaks (the frequencies are concrete).
func corr() pfc.ReciprocalSpacePairCorrelation {
	return pfc.ReciprocalSpacePairCorrelation{EffTemp: 0.3, Peaks: []pfc.Peak{
		{PlaneDensity: 1, Location: 2, Width: 0.8, NumPlanes: 4},
		{PlaneDensity: 0.7, Location: 3, Width: 0.5, NumPlanes: 4}}}
}

// tensor is an arbitrary symmetric dim x dim tensor.
func tensor(name string, dim int) []float64 {
	K := make([]float64, dim*dim)
	for i := 0; i < dim; i++ {
		for j := i; j < dim; j++ {
			K[i*dim+j] = sym.Float(fmt.Sprintf("%s%d%d", name, i, j), -2, 2)
			K[j*dim+i] = K[i*dim+j]
		}
	}
	return K
}

// DivKinds are the terms in divergence form.
var DivKinds = []string{"text", "textimpl", "divgrad", "charge", "noise", "pair", "pairexpl", "mixture", "viscosity", "hessian", "userlap"}

// Divergence builds a model whose equation for conc has only terms in divergence form.
func Divergence(kind string, d []int) *Built {
	dim := len(d)
	switch kind {
	case "text":
		b := Fields(d, []string{"conc", "eta"}, 1)
		b.scalar("aa", -2, 2)
		b.scalar("bb", -2, 2)
		b.eq("aa*LAP*conc^2*eta - bb*LAP^2*eta + LAP^3*conc^2")
		return b
	case "textimpl":
		b := Fields(d, []string{"conc"}, 1)
		b.scalar("aa", 0, 2)
		b.scalar("bb", 0, 2)
		b.eq("aa*LAP*conc - bb*LAP^2*conc")
		return b
	case "userlap":
		b := Fields(d, []string{"conc", "eta"}, 1)
		w := ref.Real("w", b.N, -2, 2)
		b.M.RegisterExplicitTerm("USER", &Term{F: func(m map[string]pf.Brick, f []float64, t float64, k int) complex128 {
			return complex(w[k], 0) + m["eta"].Get(k)
		}}, nil)
		b.eq("LAP*USER")
		return b
	case "divgrad":
		b := Fields(d, []string{"conc", "eta"}, 1)
		w := ref.Real("w", b.N, -2, 2)
		dg := &pf.DivGrad{Field: "conc", F: func(i int, m map[string]pf.Brick) complex128 {
			return complex(w[i], 0) * m["eta"].Get(i)
		}}
		dg.PrepareModel(b.N, &b.M, b.FT)
		b.M.RegisterExplicitTerm("DIVGRAD", Wrap(dg.Construct), nil)
		b.eq("DIVGRAD")
		return b
	case "charge":
		b := Fields(d, []string{"conc"}, 1)
		ext := ref.Real("E", dim, -2, 2)
		m := dim * (dim + 1) / 2
		s := make([][]float64, b.N)
		for i := range s {
			s[i] = ref.Real(fmt.Sprintf("s%d_", i), m, -2, 2)
		}
		ct := &pf.ChargeTransport{Field: "conc", ExternalField: ext, FT: b.FT, Conductivity: func(i int) []float64 { return s[i] }}
		b.M.RegisterExplicitTerm("CHARGE", ct, nil)
		b.eq("CHARGE")
		return b
	case "noise":
		b := Fields(d, []string{"conc"}, 1)
		cn := pf.NewConservativeNoise(sym.Float("str", 0.1, 2), dim)
		b.M.RegisterExplicitTerm("NOISE", &cn, cn.RequiredDerivedFields(b.N))
		b.eq("NOISE")
		return b
	case "pair":
		b := Fields(d, []string{"conc"}, 1)
		p := &pf.PairCorrlationTerm{PairCorrFunc: corr(), Field: "conc", Prefactor: sym.Float("pre", 0, 2), Laplacian: true}
		b.M.RegisterImplicitTerm("PAIR", p, nil)
		b.eq("-PAIR")
		return b
	case "pairexpl":
		b := Fields(d, []string{"conc"}, 1)
		p := &pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: pf.PairCorrlationTerm{PairCorrFunc: corr(), Field: "conc", Prefactor: sym.Float("pre", 0, 2), Laplacian: true}}
		b.M.RegisterExplicitTerm("PAIR", p, nil)
		b.eq("PAIR")
		return b
	case "mixture":
		b := Fields(d, []string{"conc"}, 1)
		t := &pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: sym.Float("c3", -2, 2), C4: sym.Float("c4", -2, 2)}, Field: "conc", Prefactor: sym.Float("pre", 0, 2), Laplacian: true}
		df := t.DerivedField(b.N, b.M.Bricks)
		b.M.RegisterMixedTerm("MIX", t, []pf.DerivedField{df})
		b.eq("MIX")
		return b
	case "viscosity":
		b := Fields(d, []string{"conc"}, 1)
		p := 1 + sym.Choose("power", 4)
		v := &pf.SpectralViscosity{Eps: sym.Float("eps", 0, 2), DissipationThreshold: 0.4, Power: p}
		b.M.RegisterImplicitTerm("VISC", v, nil)
		b.eq("VISC")
		return b
	case "hessian":
		b := Fields(d, []string{"conc"}, 1)
		th := &pf.TensorialHessian{Field: "conc", K: tensor("K", dim)}
		b.M.RegisterImplicitTerm("HESS", th, nil)
		b.eq("HESS")
		return b
	}
	panic(kind)
}

// OtherKinds are the remaining built-in terms.
var OtherKinds = []string{"source", "advection", "squared", "weighted", "volume", "penalty", "function", "powers", "pairplain", "pairexplplain", "mixtureplain", "white", "modifier"}

// Other builds a model for one of OtherKinds.
func Other(kind string, d []int) *Built {
	dim := len(d)
	switch kind {
	case "source":
		b := Fields(d, []string{"conc"}, 1)
		pos := make([]float64, dim)
		for a, x := range ref.Crd(d, sym.Choose("node", b.N)) {
			pos[a] = float64(x)
		}
		v := sym.Float("v", -2, 2)
		b.scalar("aa", -1, 0)
		b.eq("aa*conc")
		b.M.AddSource(0, pf.NewSource(pos, func(t float64) float64 { return v }))
		return b
	case "advection":
		names := []string{"velx", "vely", "velz"}[:dim]
		b := Fields(d, append([]string{"conc", "eta"}, names...), 1)
		ad := &pf.Advection{Field: "conc", VelocityFields: names}
		ad.PrepareModel(b.N, &b.M, b.FT)
		b.M.RegisterExplicitTerm("ADVECT", Wrap(ad.Construct), nil)
		b.eq("ADVECT")
		for _, n := range names {
			b.M.AddEquation("d" + n + "/dt = NOTHING")
		}
		return b
	case "squared":
		b := Fields(d, []string{"conc"}, 1)
		sq := pf.NewSquareGradient("conc", d)
		sq.Factor = sym.Float("fac", -2, 2)
		b.M.RegisterExplicitTerm("SQUARED", &sq, nil)
		b.eq("SQUARED")
		return b
	case "weighted":
		b := Fields(d, []string{"conc", "eta"}, 1)
		w := ref.Real("w", b.N, -2, 2)
		b.M.RegisterFunction("func", func(i int, m map[string]pf.Brick) complex128 {
			return complex(w[i], 0) + m["eta"].Get(i)
		})
		wl := &pf.WeightedLaplacian{Field: "conc", PreFactor: "func", FT: b.FT}
		b.M.RegisterExplicitTerm("WEIGHTED", Wrap(wl.Construct), nil)
		b.eq("WEIGHTED")
		return b
	case "volume":
		b := Fields(d, []string{"conc"}, 1)
		b.M.RegisterFunction("indic", func(i int, m map[string]pf.Brick) complex128 {
			x := real(m["conc"].Get(i))
			return complex(pf.IndicatorDeriv(x), 0)
		})
		v := pf.NewVolumeConservingLP("conc", "indic", 0.1, b.N)
		v.Multiplier = sym.Float("mult", -2, 2)
		b.M.RegisterExplicitTerm("VOLUME", &v, nil)
		b.eq("VOLUME")
		return b
	case "penalty":
		b := Fields(d, []string{"conc"}, 1)
		nv := pf.NewDefaultNegativeValuePenalty("conc")
		nv.Prefactor = sym.Float("pre", 0, 2)
		b.M.RegisterFunction("penalty", nv.Evaluate)
		b.eq("penalty")
		return b
	case "white":
		b := Fields(d, []string{"conc"}, 1)
		w := pf.WhiteNoise{Strength: sym.Float("str", 0, 2)}
		b.M.RegisterFunction("white", w.Generate)
		b.eq("white")
		return b
	case "function":
		b := Fields(d, []string{"conc", "eta"}, 1)
		w := ref.Real("w", b.N, -2, 2)
		b.scalar("aa", -2, 2)
		b.M.RegisterFunction("func", func(i int, m map[string]pf.Brick) complex128 {
			return complex(w[i], 0) * m["eta"].Get(i) * m["conc"].Get(i)
		})
		b.eq("aa*func - LAP*func")
		return b
	case "powers":
		b := Fields(d, []string{"conc", "eta"}, 1)
		b.scalar("aa", -2, 2)
		b.scalar("bb", -2, 0)
		b.eq("aa*conc^3 - conc^2*eta + bb*conc + aa*LAP*eta^2 + bb*eta")
		return b
	case "pairplain":
		b := Fields(d, []string{"conc"}, 1)
		p := &pf.PairCorrlationTerm{PairCorrFunc: corr(), Field: "conc", Prefactor: sym.Float("pre", 0, 2)}
		b.M.RegisterImplicitTerm("PAIR", p, nil)
		b.eq("PAIR")
		return b
	case "pairexplplain":
		b := Fields(d, []string{"conc"}, 1)
		p := &pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: pf.PairCorrlationTerm{PairCorrFunc: corr(), Field: "conc", Prefactor: sym.Float("pre", 0, 2)}}
		b.M.RegisterExplicitTerm("PAIR", p, nil)
		b.eq("PAIR")
		return b
	case "mixtureplain":
		b := Fields(d, []string{"conc"}, 1)
		t := &pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: sym.Float("c3", -2, 2), C4: sym.Float("c4", -2, 2)}, Field: "conc", Prefactor: sym.Float("pre", 0, 2)}
		df := t.DerivedField(b.N, b.M.Bricks)
		b.M.RegisterMixedTerm("MIX", t, []pf.DerivedField{df})
		b.eq("-MIX")
		return b
	case "modifier":
		b := Fields(d, []string{"conc"}, 1)
		b.scalar("aa", -2, 2)
		b.eq("aa*conc^2")
		v := sym.Float("v", -2, 2)
		b.M.RegisterRHSModifier(0, func(data []complex128) {
			for k := range data {
				data[k] *= complex(v, 0)
			}
		})
		return b
	}
	panic(kind)
}

// Elastic builds a model with the elastic term of a stiffness and a misfit.
func Elastic(d []int, c elasticity.Rank4, misfit *mat.Dense) (*Built, *pf.HomogeneousModulusLinElast) {
	b := Fields(d, []string{"conc"}, 1)
	h := pf.NewHomogeneousModolus("conc", d, c, misfit)
	for i := range h.Field {
		h.Field[i] = b.Init[0][i]
	}
	b.M.RegisterExplicitTerm("ELASTIC", h, nil)
	b.eq("ELASTIC")
	return b, h
}

// Arb is an explicit and an implicit term with new arbitrary values at every evaluation, conjugate symmetric
// and (if Zero) without a mean amplitude.
type Arb struct {
	D    []int
	Name string
	Zero bool
	Sym  bool
	Impl bool // real implicit coefficients in [-1,0.5]
}

// Construct implements pf.PureTerm.
func (a *Arb) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, field []complex128) {
		for k := range field {
			c := ref.Conj(a.D, k)
			switch {
			case k == 0 && a.Zero:
				field[k] = 0
			case a.Sym && c < k:
				field[k] = complex(real(field[c]), -imag(field[c]))
			case a.Impl:
				field[k] = complex(sym.Fresh(a.Name, -1, 0.5), 0)
			default:
				im := 0.0
				if !a.Sym || c != k {
					im = sym.Fresh(a.Name+"i", -2, 2)
				}
				field[k] = complex(sym.Fresh(a.Name, -2, 2), im)
			}
		}
	}
}

// OnStepFinished implements pf.PureTerm.
func (a *Arb) OnStepFinished(t float64, b map[string]pf.Brick) {}

// Sum adds up.
func Sum(x []complex128) complex128 {
	s := complex128(0)
	for _, v := range x {
		s += v
	}
	return s
}

// Wave is 2*pi*f.
func Wave(f float64) float64 { return 2 * math.Pi * f }
