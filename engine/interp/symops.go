package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// symC is a complex number with at least one symbolic part.
type symC struct{ re, im *term.R }

func (i *interpreter) decide(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *term.B:
		return i.p.Decide(v)
	}
	panic(unsupported(fmt.Sprintf("branch on %T", v)))
}

func (i *interpreter) concInt(v value) int64 {
	if t, ok := v.(*term.I); ok {
		return i.p.Concretize(t)
	}
	return asInt64(v)
}

func bval(b *term.B) value {
	if b.Op == term.BConst {
		return b.V
	}
	return b
}

// rval returns a concrete float when the polynomial is constant.
func (i *interpreter) rval(p *term.R) value {
	if p.IsConst() {
		return p.ConstVal()
	}
	return p
}

func (i *interpreter) cval(re, im *term.R) value {
	if re.IsConst() && im.IsConst() {
		return complex(re.ConstVal(), im.ConstVal())
	}
	return &symC{re, im}
}

func (i *interpreter) nonFiniteC() value { return complex(math.NaN(), math.NaN()) }

// toR converts a float value to a polynomial; false for NaN and infinities.
func (i *interpreter) toR(v value) (*term.R, bool) {
	switch v := v.(type) {
	case *term.R:
		return v, true
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return nil, false
		}
		return i.p.C.RConst(v), true
	case float32:
		return i.toR(float64(v))
	}
	panic(unsupported(fmt.Sprintf("real from %T", v)))
}

func (i *interpreter) toC(v value) (*symC, bool) {
	switch v := v.(type) {
	case *symC:
		return v, true
	case complex128:
		re, ok1 := i.toR(real(v))
		im, ok2 := i.toR(imag(v))
		return &symC{re, im}, ok1 && ok2
	}
	panic(unsupported(fmt.Sprintf("complex from %T", v)))
}

func (i *interpreter) toI(v value) *term.I {
	switch v := v.(type) {
	case *term.I:
		return v
	case uint64:
		return i.p.C.IBig(new(big.Int).SetUint64(v))
	case uint:
		return i.p.C.IBig(new(big.Int).SetUint64(uint64(v)))
	case uintptr:
		return i.p.C.IBig(new(big.Int).SetUint64(uint64(v)))
	}
	return i.p.C.IConstV(asInt64(v))
}

func intType(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("integer type " + t.String()))
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	panic(unsupported("integer type " + t.String()))
}

// ival returns a concrete Go integer of type t when the term is constant.
func (i *interpreter) ival(x *term.I, t types.Type) value {
	if !x.IsConst() {
		return x
	}
	_, signed := intType(t)
	if signed {
		return convC(t, types.Typ[types.Int64], x.Lo.Int64())
	}
	return convC(t, types.Typ[types.Uint64], x.Lo.Uint64())
}

func isC(v value) bool {
	switch v.(type) {
	case *symC:
		return true
	}
	return false
}

func (i *interpreter) binop(op token.Token, t types.Type, x, y value) value {
	if op == token.EQL || op == token.NEQ {
		b := i.eqnil(t, x, y)
		if op == token.NEQ {
			b = i.p.C.Not(b)
		}
		return bval(b)
	}
	if b, ok := tokOrder(op, x, y); ok {
		return b
	}
	if !isSym(x) && !isSym(y) {
		if op == token.QUO || op == token.REM {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && isZeroInt(y) {
				panic(targetPanic{"runtime error: integer divide by zero"})
			}
		}
		if op == token.SHL || op == token.SHR {
			if _, ok := asUnsigned2(y); !ok {
				panic(targetPanic{"runtime error: negative shift amount"})
			}
		}
		return binopC(op, t, x, y)
	}
	switch x.(type) {
	case *symStr:
		return i.strBinop(op, x, y)
	case string:
		return i.strBinop(op, x, y)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("symbolic binop on " + t.String()))
	}
	info := b.Info()
	switch {
	case info&types.IsComplex != 0:
		return i.binopComplex(op, x, y)
	case info&types.IsFloat != 0:
		return i.binopFloat(op, x, y)
	case info&types.IsInteger != 0:
		return i.binopInt(op, t, x, y)
	case info&types.IsBoolean != 0:
		xb, yb := i.toB(x), i.toB(y)
		switch op {
		case token.AND, token.LAND:
			return bval(i.p.C.And(xb, yb))
		case token.OR, token.LOR:
			return bval(i.p.C.Or(xb, yb))
		}
	}
	panic(unsupported(fmt.Sprintf("symbolic %s on %s", op, t)))
}

// tokOrder compares the unknown characters of a number or name with a byte
// outside the characters they can have.
func tokOrder(op token.Token, x, y value) (bool, bool) {
	t, ok := x.(*stok)
	o, flip := y, false
	if !ok {
		if t, ok = y.(*stok); !ok {
			return false, false
		}
		o, flip = x, true
	}
	if _, both := o.(*stok); both || t.kind == "byte" {
		return false, false
	}
	n := asInt64(o)
	less := false // token < n
	switch {
	case n >= 127:
		less = true
	case n <= 42:
	default:
		return false, false
	}
	switch op {
	case token.LSS, token.LEQ:
		return less != flip, true
	case token.GTR, token.GEQ:
		return less == flip, true
	}
	return false, false
}

func (i *interpreter) toB(v value) *term.B {
	switch v := v.(type) {
	case bool:
		return term.Bool(v)
	case *term.B:
		return v
	}
	panic(unsupported(fmt.Sprintf("bool from %T", v)))
}

func isZeroInt(v value) bool {
	switch v := v.(type) {
	case uint64:
		return v == 0
	case uint:
		return v == 0
	}
	return asInt64(v) == 0
}

func asUnsigned2(v value) (value, bool) {
	switch v.(type) {
	case uint16:
		return v, true
	}
	return asUnsigned(v)
}

func (i *interpreter) binopInt(op token.Token, t types.Type, xv, yv value) value {
	c := i.p.C
	w, signed := intType(t)
	x, y := i.toI(xv), i.toI(yv)
	wrap := func(r *term.I) value { return i.ival(c.Wrap(r, w, signed), t) }
	switch op {
	case token.ADD:
		return wrap(c.IAddT(x, y))
	case token.SUB:
		return wrap(c.ISubT(x, y))
	case token.MUL:
		return wrap(c.IMulT(x, y))
	case token.QUO, token.REM:
		if i.p.Decide(c.IEqT(y, c.IConstV(0))) {
			panic(targetPanic{"runtime error: integer divide by zero"})
		}
		if y.Lo.Sign() <= 0 && !y.IsConst() {
			// split on the divisor's sign so the encoding stays simple
			if !i.p.Decide(c.ILtT(c.IConstV(0), y)) {
				// negative divisor: a/b = -(a/-b), a%b = a%(-b)
				ny := c.ISubT(c.IConstV(0), y)
				ny.Lo = big.NewInt(1)
				if op == token.QUO {
					return wrap(c.ISubT(c.IConstV(0), c.IQuoT(x, ny)))
				}
				return wrap(c.IRemT(x, ny))
			}
			y2 := *y
			y2.Lo = big.NewInt(1)
			y = &y2
		}
		if y.IsConst() && y.Lo.Sign() < 0 {
			ny := c.IBig(new(big.Int).Neg(y.Lo))
			if op == token.QUO {
				return wrap(c.ISubT(c.IConstV(0), c.IQuoT(x, ny)))
			}
			return wrap(c.IRemT(x, ny))
		}
		if op == token.QUO {
			return wrap(c.IQuoT(x, y))
		}
		return wrap(c.IRemT(x, y))
	case token.LSS:
		return bval(c.ILtT(x, y))
	case token.LEQ:
		return bval(c.ILeT(x, y))
	case token.GTR:
		return bval(c.ILtT(y, x))
	case token.GEQ:
		return bval(c.ILeT(y, x))
	case token.SHL:
		k := i.concInt(yv)
		if k < 0 {
			panic(targetPanic{"runtime error: negative shift amount"})
		}
		if k >= int64(w) {
			return wrap(c.IConstV(0))
		}
		return wrap(c.IMulT(x, c.IBig(new(big.Int).Lsh(big.NewInt(1), uint(k)))))
	case token.SHR:
		k := i.concInt(yv)
		if k < 0 {
			panic(targetPanic{"runtime error: negative shift amount"})
		}
		if k > 64 {
			k = 64
		}
		return wrap(c.IFDivT(x, new(big.Int).Lsh(big.NewInt(1), uint(k))))
	case token.AND:
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() && y.Lo.Sign() > 0 {
			m := new(big.Int).Add(y.Lo, big.NewInt(1))
			if new(big.Int).And(m, y.Lo).Sign() == 0 {
				// x mod 2^k
				return wrap(c.ISubT(x, c.IMulT(c.IBig(m), c.IFDivT(x, m))))
			}
		}
		if y.IsConst() && y.Lo.Sign() == 0 {
			return wrap(y)
		}
	}
	// fall back to concrete operands
	return i.binop(op, t, i.ival(c.IConstV(i.p.Concretize(x)), t), i.ival(c.IConstV(i.p.Concretize(y)), t))
}

func nonFinite(v value) (float64, bool) {
	f, ok := v.(float64)
	return f, ok && (math.IsNaN(f) || math.IsInf(f, 0))
}

func (i *interpreter) sign(p *term.R) int {
	if i.p.Decide(i.p.C.Lt(p, i.p.C.RConst(0))) {
		return -1
	}
	if i.p.Decide(i.p.C.Eq(p, i.p.C.RConst(0))) {
		return 0
	}
	return 1
}

func (i *interpreter) binopFloat(op token.Token, xv, yv value) value {
	c := i.p.C
	if f, nfx := nonFinite(xv); nfx {
		s := float64(i.signIfNeeded(op, f, yv))
		return binopC(op, types.Typ[types.Float64], f, s)
	}
	if f, nfy := nonFinite(yv); nfy {
		s := float64(i.signIfNeeded(op, f, xv))
		return binopC(op, types.Typ[types.Float64], s, f)
	}
	x, _ := i.toR(xv)
	y, _ := i.toR(yv)
	switch op {
	case token.ADD:
		return i.rval(c.Add(x, y))
	case token.SUB:
		return i.rval(c.Sub(x, y))
	case token.MUL:
		return i.rval(c.Mul(x, y))
	case token.QUO:
		if y.IsConst() {
			if y.ConstVal() == 0 {
				return quoZero(i.sign(x))
			}
			return i.rval(c.Mul(x, c.Inv(y)))
		}
		if i.p.Decide(c.Eq(y, c.RConst(0))) {
			return quoZero(i.sign(x))
		}
		return i.rval(c.Mul(x, c.Inv(y)))
	case token.LSS:
		return bval(c.Lt(x, y))
	case token.LEQ:
		return bval(c.Le(x, y))
	case token.GTR:
		return bval(c.Lt(y, x))
	case token.GEQ:
		return bval(c.Le(y, x))
	}
	panic(unsupported("symbolic float " + op.String()))
}

func quoZero(s int) float64 {
	switch {
	case s < 0:
		return math.Inf(-1)
	case s > 0:
		return math.Inf(1)
	}
	return math.NaN()
}

// signIfNeeded gives a representative of the symbolic operand for operations
// with an infinity or NaN.
func (i *interpreter) signIfNeeded(op token.Token, f float64, sym value) int {
	if math.IsNaN(f) {
		return 1
	}
	switch op {
	case token.MUL, token.QUO:
		if p, ok := sym.(*term.R); ok {
			return i.sign(p)
		}
	}
	return 1
}

func (i *interpreter) binopComplex(op token.Token, xv, yv value) value {
	c := i.p.C
	x, ok1 := i.toC(xv)
	y, ok2 := i.toC(yv)
	if !ok1 || !ok2 {
		return i.nonFiniteC()
	}
	switch op {
	case token.ADD:
		return i.cval(c.Add(x.re, y.re), c.Add(x.im, y.im))
	case token.SUB:
		return i.cval(c.Sub(x.re, y.re), c.Sub(x.im, y.im))
	case token.MUL:
		return i.cmul(x, y)
	case token.QUO:
		den := c.Add(c.Mul(y.re, y.re), c.Mul(y.im, y.im))
		if y.im.IsConst() && y.im.ConstVal() == 0 {
			// real divisor
			if y.re.IsConst() {
				if y.re.ConstVal() == 0 {
					return i.nonFiniteC()
				}
			} else if i.p.Decide(c.Eq(y.re, c.RConst(0))) {
				return i.nonFiniteC()
			}
			iv := c.Inv(y.re)
			return i.cval(c.Mul(x.re, iv), c.Mul(x.im, iv))
		}
		lo := 0.0
		for _, q := range []*term.R{y.re, y.im} {
			if a, b := c.Range(q); a > 0 {
				lo += a * a
			} else if b < 0 {
				lo += b * b
			}
		}
		if den.IsConst() {
			if den.ConstVal() == 0 {
				return i.nonFiniteC()
			}
		} else if lo > 0 {
			iv := c.InvAbove(den, lo*(1-1e-9))
			num := i.cmul2(x, &symC{y.re, c.Neg(y.im)})
			return i.cval(c.Mul(num.re, iv), c.Mul(num.im, iv))
		} else if i.p.Decide(c.Eq(den, c.RConst(0))) {
			return i.nonFiniteC()
		}
		iv := c.Inv(den)
		num := i.cmul2(x, &symC{y.re, c.Neg(y.im)})
		return i.cval(c.Mul(num.re, iv), c.Mul(num.im, iv))
	}
	panic(unsupported("symbolic complex " + op.String()))
}

func (i *interpreter) cmul2(x, y *symC) *symC {
	c := i.p.C
	return &symC{c.Sub(c.Mul(x.re, y.re), c.Mul(x.im, y.im)), c.Add(c.Mul(x.re, y.im), c.Mul(x.im, y.re))}
}

func (i *interpreter) cmul(x, y *symC) value {
	r := i.cmul2(x, y)
	return i.cval(r.re, r.im)
}

// eqTerm is Go's == on values of type t as a boolean term.
func (i *interpreter) eqTerm(t types.Type, x, y value) *term.B {
	c := i.p.C
	if isSym(x) || isSym(y) {
		switch x.(type) {
		case *term.I:
			return c.IEqT(i.toI(x), i.toI(y))
		case *symStr:
			return i.strEq(x, y)
		case string:
			return i.strEq(x, y)
		}
		switch y.(type) {
		case *term.I:
			return c.IEqT(i.toI(x), i.toI(y))
		}
		switch x.(type) {
		case *term.R, float64:
			if _, nf := nonFinite(x); nf {
				return term.False
			}
			if _, nf := nonFinite(y); nf {
				return term.False
			}
			a, _ := i.toR(x)
			b, _ := i.toR(y)
			return c.Eq(a, b)
		case *symC, complex128:
			a, ok1 := i.toC(x)
			b, ok2 := i.toC(y)
			if !ok1 || !ok2 {
				return term.False
			}
			return c.And(c.Eq(a.re, b.re), c.Eq(a.im, b.im))
		case *term.B, bool:
			a, b := i.toB(x), i.toB(y)
			return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
		}
		panic(unsupported(fmt.Sprintf("equality of %T and %T", x, y)))
	}
	switch x := x.(type) {
	case structure:
		st := t.Underlying().(*types.Struct)
		r := term.True
		for k := range x {
			if st.Field(k).Name() == "_" {
				continue
			}
			r = c.And(r, i.eqTerm(st.Field(k).Type(), x[k], y.(structure)[k]))
			if r == term.False {
				return r
			}
		}
		return r
	case array:
		r := term.True
		et := t.Underlying().(*types.Array).Elem()
		for k := range x {
			r = c.And(r, i.eqTerm(et, x[k], y.(array)[k]))
			if r == term.False {
				return r
			}
		}
		return r
	case iface:
		yi, ok := y.(iface)
		if !ok {
			panic(unsupported("interface comparison"))
		}
		if x.t == nil || yi.t == nil {
			return term.Bool(x.t == nil && yi.t == nil)
		}
		if !types.Identical(x.t, yi.t) {
			return term.False
		}
		return i.eqTerm(x.t, x.v, yi.v)
	case rtype:
		return term.Bool(types.Identical(x.t, y.(rtype).t))
	case []value, *omap:
		panic(targetPanic{"runtime error: comparing uncomparable type"})
	case *ssa.Function, *closure:
		panic(targetPanic{"runtime error: comparing uncomparable type func"})
	}
	return term.Bool(x == y)
}

func (i *interpreter) eqnil(t types.Type, x, y value) *term.B {
	switch t.Underlying().(type) {
	case *types.Map, *types.Signature, *types.Slice:
		return term.Bool(isNilRef(x) && isNilRef(y))
	}
	return i.eqTerm(t, x, y)
}

func isNilRef(x value) bool {
	switch x := x.(type) {
	case *omap:
		return x == nil
	case *ssa.Function:
		return x == nil
	case []value:
		return x == nil
	}
	return false
}

func (i *interpreter) unop(fr *frame, instr *ssa.UnOp, x value) value {
	c := i.p.C
	switch instr.Op {
	case token.ARROW:
		panic(unsupported("channel receive"))
	case token.MUL:
		return load(mustDeref(instr.X.Type()), fr.addr(x))
	case token.SUB:
		switch x := x.(type) {
		case *term.I:
			w, s := intType(instr.Type())
			return i.ival(c.Wrap(c.ISubT(c.IConstV(0), x), w, s), instr.Type())
		case *term.R:
			return c.Neg(x)
		case *symC:
			return &symC{c.Neg(x.re), c.Neg(x.im)}
		}
		return unopC(instr.Op, x)
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *term.B:
			return bval(c.Not(x))
		}
	case token.XOR:
		if t, ok := x.(*term.I); ok {
			w, s := intType(instr.Type())
			return i.ival(c.Wrap(c.ISubT(c.IConstV(-1), t), w, s), instr.Type())
		}
		return unopC(instr.Op, x)
	}
	panic(unsupported(fmt.Sprintf("unary %s on %T", instr.Op, x)))
}

func unopC(op token.Token, x value) value {
	neg := op == token.SUB
	switch x := x.(type) {
	case int:
		if neg {
			return -x
		}
		return ^x
	case int8:
		if neg {
			return -x
		}
		return ^x
	case int16:
		if neg {
			return -x
		}
		return ^x
	case int32:
		if neg {
			return -x
		}
		return ^x
	case int64:
		if neg {
			return -x
		}
		return ^x
	case uint:
		if neg {
			return -x
		}
		return ^x
	case uint8:
		if neg {
			return -x
		}
		return ^x
	case uint16:
		if neg {
			return -x
		}
		return ^x
	case uint32:
		if neg {
			return -x
		}
		return ^x
	case uint64:
		if neg {
			return -x
		}
		return ^x
	case uintptr:
		if neg {
			return -x
		}
		return ^x
	case float32:
		return -x
	case float64:
		return -x
	case complex64:
		return -x
	case complex128:
		return -x
	}
	panic(unsupported(fmt.Sprintf("unary %s on %T", op, x)))
}

func (i *interpreter) conv(dst, src types.Type, x value) value {
	c := i.p.C
	switch x := x.(type) {
	case *term.I:
		b, ok := dst.Underlying().(*types.Basic)
		if !ok {
			break
		}
		switch {
		case b.Info()&types.IsInteger != 0:
			w, s := intType(dst)
			return i.ival(c.Wrap(x, w, s), dst)
		case b.Info()&types.IsFloat != 0:
			return i.rval(c.RInt(x))
		}
		panic(unsupported("conversion of symbolic int to " + dst.String()))
	case *term.R:
		b, ok := dst.Underlying().(*types.Basic)
		if !ok {
			break
		}
		switch {
		case b.Kind() == types.Float32:
			// treated as a real as well
			return x
		case b.Info()&types.IsFloat != 0:
			return x
		case b.Info()&types.IsInteger != 0:
			w, s := intType(dst)
			if lo, hi := c.Range(x); hi-lo <= 14 {
				// few values: fork, so that the path stays purely real
				if _, ok := c.IntegerValued(x); !ok {
					t := i.truncR(x)
					sg := int64(1)
					if t.Op == term.ISub && t.A.IsConst() && t.A.Lo.Sign() == 0 {
						t, sg = t.B, -1
					}
					return i.ival(c.Wrap(c.IConstV(sg*i.p.Concretize(t)), w, s), dst)
				}
			}
			return i.ival(c.Wrap(i.truncR(x), w, s), dst)
		}
	case *symC:
		return x
	case *stok: // the unknown characters of a number or name, as a byte or rune
		if b, ok := dst.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && x.kind != "byte" {
			return x
		}
	case *symStr:
		if _, ok := dst.Underlying().(*types.Slice); ok {
			return i.toBytes(x)
		}
		return x
	case []value:
		if b, ok := dst.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return i.bytesToString(x)
		}
	case *value:
		if b, ok := dst.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			panic(unsupported("unsafe.Pointer"))
		}
		return x
	}
	if b, ok := src.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		panic(unsupported("unsafe.Pointer"))
	}
	return convC(dst, src, x)
}

// truncR is Go's float to integer conversion (towards zero).
func (i *interpreter) truncR(x *term.R) *term.I {
	c := i.p.C
	if t, ok := c.IntegerValued(x); ok {
		return t
	}
	lo, hi := c.Range(x)
	switch {
	case lo >= 0:
		return c.Floor(x)
	case hi <= 0:
		return c.ISubT(c.IConstV(0), c.Floor(c.Neg(x)))
	}
	if i.p.Decide(c.Lt(x, c.RConst(0))) {
		return c.ISubT(c.IConstV(0), c.Floor(c.Neg(x)))
	}
	return c.Floor(x)
}
