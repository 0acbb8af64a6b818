// Package mdl has small models and terms with arbitrary coefficients for the harnesses of the steppers.
package mdl

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

// Term is a term given by a function of the (transformed) bricks, the time and the mode.
type Term struct {
	F    func(b map[string]pf.Brick, freq []float64, t float64, k int) complex128
	L    func(b map[string]pf.Brick, freq []float64, t float64, k int) complex128
	Done func(t float64, b map[string]pf.Brick)
}

func run(f func(b map[string]pf.Brick, freq []float64, t float64, k int) complex128, b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, field []complex128) {
		for k := range field {
			field[k] = f(b, freq(k), t, k)
		}
	}
}

// Construct implements pf.PureTerm.
func (e *Term) Construct(b map[string]pf.Brick) pf.Term { return run(e.F, b) }

// ConstructNonLinear implements pf.MixedTerm.
func (e *Term) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return run(e.F, b) }

// ConstructLinear implements pf.MixedTerm.
func (e *Term) ConstructLinear(b map[string]pf.Brick) pf.Term { return run(e.L, b) }

// OnStepFinished implements both.
func (e *Term) OnStepFinished(t float64, b map[string]pf.Brick) {
	if e.Done != nil {
		e.Done(t, b)
	}
}

// Names are field names none of which contains another.
var Names = []string{"conc", "eta", "phi"}

// Sys is a model of nf fields y_i with the transformed equations
// dy_i/dt = A_i(k) y_i + N_i(k), N_i = B_i(k) + T_i(k)*t + sum_j C_ij y_j (+ quadratic parts the caller adds by text).
type Sys struct {
	D    []int
	N    int
	NF   int
	M    pf.Model
	Init [][]float64
	A, B [][]complex128
	T    []float64
	TA   []float64 // slope in time of the implicit coefficients
	C    [][]float64
}

// Opt selects what is arbitrary.
type Opt struct {
	Complex  bool // complex implicit coefficients and explicit values
	Implicit bool
	Free     bool // free explicit values per mode
	Time     bool
	Couple   bool
	TimeA    bool // implicit coefficients that depend on the time
	Reverse  bool // equations in the opposite order of the fields
	Extra    []string // text appended per equation
}

// New builds the model with arbitrary coefficients.
func New(d []int, nf int, o Opt) *Sys {
	s := &Sys{D: d, N: ref.Num(d), NF: nf, M: pf.NewModel()}
	for i := 0; i < nf; i++ {
		x := ref.Real(Names[i], s.N, -2, 2)
		s.Init = append(s.Init, x)
		s.M.AddField(pf.NewField(Names[i], s.N, ref.ToC(x)))
	}
	var eqs []string
	for i := 0; i < nf; i++ {
		i := i
		s.A = append(s.A, make([]complex128, s.N))
		s.B = append(s.B, make([]complex128, s.N))
		s.C = append(s.C, make([]float64, nf))
		s.T = append(s.T, 0)
		s.TA = append(s.TA, 0)
		if o.Implicit {
			for k := range s.A[i] {
				im := 0.0
				if o.Complex {
					im = sym.Float(fmt.Sprintf("Ai%d_%d", i, k), -3, 3)
				}
				s.A[i][k] = complex(sym.Float(fmt.Sprintf("A%d_%d", i, k), -3, 0.5), im)
			}
		}
		if o.Free {
			for k := range s.B[i] {
				im := 0.0
				if o.Complex {
					im = sym.Float(fmt.Sprintf("Bi%d_%d", i, k), -3, 3)
				}
				s.B[i][k] = complex(sym.Float(fmt.Sprintf("B%d_%d", i, k), -3, 3), im)
			}
		}
		if o.Time {
			s.T[i] = sym.Float(fmt.Sprintf("T%d", i), -2, 2)
		}
		if o.TimeA {
			s.TA[i] = sym.Float(fmt.Sprintf("TA%d", i), -1, 0)
		}
		if o.Couple {
			for j := 0; j < nf; j++ {
				s.C[i][j] = sym.Float(fmt.Sprintf("C%d%d", i, j), -2, 2)
			}
		}
		eq := "d" + Names[i] + "/dt = "
		n := fmt.Sprintf("EXPL%d", i)
		s.M.RegisterExplicitTerm(n, &Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 {
			v := s.B[i][k] + complex(s.T[i]*t, 0)
			if o.Couple {
				for j := 0; j < nf; j++ {
					v += complex(s.C[i][j], 0) * b[Names[j]].Get(k)
				}
			}
			return v
		}}, nil)
		eq += n
		if o.Implicit {
			n := fmt.Sprintf("IMPL%d", i)
			s.M.RegisterImplicitTerm(n, &Term{F: func(b map[string]pf.Brick, f []float64, t float64, k int) complex128 {
				return s.Lin(i, k, t)
			}}, nil)
			eq += " + " + n
		}
		if i < len(o.Extra) {
			eq += o.Extra[i]
		}
		eqs = append(eqs, eq)
	}
	for i := range eqs {
		if o.Reverse {
			i = nf - 1 - i
		}
		s.M.AddEquation(eqs[i])
	}
	return s
}

// Lin is the implicit coefficient at time t.
func (s *Sys) Lin(i, k int, t float64) complex128 {
	return s.A[i][k] + complex(s.TA[i]*t, 0)
}

// Hat is the transformed state.
func (s *Sys) Hat() [][]complex128 {
	out := make([][]complex128, s.NF)
	for i := range out {
		out[i] = ref.DFT(s.D, s.M.Fields[i].Data, -1)
	}
	return out
}

// NL is the explicit part at the transformed state y and time t (without extra text).
func (s *Sys) NL(i, k int, y [][]complex128, t float64) complex128 {
	v := s.B[i][k] + complex(s.T[i]*t, 0)
	for j := 0; j < s.NF; j++ {
		v += complex(s.C[i][j], 0) * y[j][k]
	}
	return v
}

// Filt is a filter a + b*x.
type Filt struct{ A, B float64 }

// Eval implements pf.ModalFilter.
func (f *Filt) Eval(x float64) float64 { return f.A + f.B*x }

// At is the filter's value at a mode.
func (f *Filt) At(d []int, k int) float64 {
	s := 0.0
	for _, x := range ref.F(d, k) {
		s += x * x
	}
	return f.A + f.B*math.Sqrt(s)*2/math.Pi
}
