package interp

import (
	"go/token"
	"math"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

const gnum = "gonum.org/v1/gonum/"

func init() {
	off := func(fr *frame, a []value) value {
		x, y := a[0].([]value), a[1].([]value)
		if len(x) == 0 || len(y) == 0 {
			return 0
		}
		d := int64(uintptr(unsafe.Pointer(&y[0]))) - int64(uintptr(unsafe.Pointer(&x[0])))
		return int(d / int64(unsafe.Sizeof(y[0])))
	}
	reg(gnum+"mat.offset", off)
	l2 := func(fr *frame, n int, get func(k int) value) value {
		var s value = 0.0
		for k := 0; k < n; k++ {
			x := get(k)
			s = fr.i.binop(tokADD, typF64, s, fr.i.binopFloat(tokMUL, x, x))
		}
		if f, ok := s.(float64); ok {
			return math.Sqrt(f)
		}
		r, _ := fr.i.toR(s)
		return fr.i.rval(fr.i.p.C.Sqrt(r))
	}
	reg(gnum+"internal/asm/f64.L2NormUnitary", func(fr *frame, a []value) value {
		x := a[0].([]value)
		return l2(fr, len(x), func(k int) value { return x[k] })
	})
	reg(gnum+"internal/asm/f64.L2NormInc", func(fr *frame, a []value) value {
		x, inc := a[0].([]value), int(asInt64(a[2]))
		return l2(fr, int(asInt64(a[1])), func(k int) value { return x[k*inc] })
	})
	reg(gnum+"mat.offsetComplex", off)
}

// In gonum's BLAS kernels comparisons with zero only skip work whose result is
// zero, so a symbolic value is taken as non-zero there instead of forking.
func (fr *frame) blasZeroTest(in *ssa.BinOp, x, y value) (bool, bool) {
	// the starting residual of the iterative linear solver is taken as not already below its tolerance
	if in.Op == token.GEQ && isSym(x) && fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Path() == "gonum.org/v1/exp/linsolve" && fr.fn.Name() == "Iterative" {
		return true, true
	}
	if in.Op == token.EQL && isSym(x) && fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Path() == "gonum.org/v1/exp/linsolve" && fr.fn.Name() == "iterate" {
		return false, true
	}
	if in.Op != token.EQL && in.Op != token.NEQ {
		return false, false
	}
	if fr.fn.Pkg == nil || fr.fn.Pkg.Pkg.Path() != gnum+"blas/gonum" {
		return false, false
	}
	if f, ok := y.(float64); !ok || f != 0 || !isSym(x) {
		return false, false
	}
	return in.Op == token.NEQ, true
}
