package interp

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// copyVal copies aggregates so that slots never alias.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	case array:
		c := make(array, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	}
	return v
}

func copyAll(s []value) []value {
	if len(s) == 0 {
		return s
	}
	switch s[0].(type) {
	case structure, array:
		r := make([]value, len(s))
		for i := range s {
			r[i] = copyVal(s[i])
		}
		return r
	}
	return s
}

func (i *interpreter) typeAssert(instr *ssa.TypeAssert, itf iface) value {
	var v value
	err := ""
	if itf.t == nil {
		err = fmt.Sprintf("interface conversion: interface is nil, not %s", instr.AssertedType)
	} else if idst, ok := instr.AssertedType.Underlying().(*types.Interface); ok {
		v = itf
		err = checkInterface(idst, itf)
	} else if types.Identical(itf.t, instr.AssertedType) {
		v = copyVal(itf.v)
	} else {
		err = fmt.Sprintf("interface conversion: interface is %s, not %s", itf.t, instr.AssertedType)
	}
	if err != "" {
		if !instr.CommaOk {
			panic(targetPanic{err})
		}
		return tuple{zero(instr.AssertedType), false}
	}
	if instr.CommaOk {
		return tuple{v, true}
	}
	return v
}

func (i *interpreter) slice(x, lo, hi, max value) value {
	var Len, Cap int
	switch x := x.(type) {
	case string:
		Len = len(x)
		Cap = Len
	case []value:
		Len = len(x)
		Cap = cap(x)
	case *value:
		if x == nil {
			i.nilDeref()
		}
		a := (*x).(array)
		Len = len(a)
		Cap = cap(a)
	case *symStr:
		return i.symStrSlice(x, lo, hi)
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
	l, h, m := int64(0), int64(Len), int64(Cap)
	if lo != nil {
		l = i.concInt(lo)
	}
	if hi != nil {
		h = i.concInt(hi)
	}
	if max != nil {
		m = i.concInt(max)
	}
	if l < 0 || h < l || m < h || m > int64(Cap) {
		panic(targetPanic{fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, Cap)})
	}
	switch x := x.(type) {
	case string:
		return x[l:h]
	case []value:
		return x[l:h:m]
	case *value:
		return []value((*x).(array))[l:h:m]
	}
	return nil
}

func (i *interpreter) callBuiltin(caller *frame, fn *ssa.Builtin, args []value) value {
	switch fn.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		src := args[1]
		switch s := src.(type) {
		case string, *symStr:
			src = i.toBytes(s)
		}
		a0, ok := args[0].([]value)
		s1, ok2 := src.([]value)
		if !ok || !ok2 {
			panic(unsupported("append of opaque slices"))
		}
		s1 = copyAll(s1)
		if len(a0)+len(s1) <= cap(a0) {
			return append(a0, s1...)
		}
		// grow with zeroed spare capacity
		n := len(a0) + len(s1)
		c := 2 * cap(a0)
		if c < n {
			c = n
		}
		r := make([]value, c)
		copy(r, a0)
		copy(r[len(a0):], s1)
		if c > n {
			var et types.Type
			if st, ok := fn.Type().(*types.Signature); ok && st.Results().Len() > 0 {
				if sl, ok := st.Results().At(0).Type().Underlying().(*types.Slice); ok {
					et = sl.Elem()
				}
			}
			if et == nil {
				return r[:n:n]
			}
			for k := n; k < c; k++ {
				r[k] = zero(et)
			}
		}
		return r[:n]

	case "copy":
		src := args[1]
		switch s := src.(type) {
		case string, *symStr:
			src = i.toBytes(s)
		}
		return copy(args[0].([]value), copyAll(src.([]value)))

	case "delete":
		m, ok := args[0].(*omap)
		if !ok {
			panic(unsupported("delete from opaque map"))
		}
		i.mapDelete(m, args[1])
		return nil

	case "clear":
		switch x := args[0].(type) {
		case *omap:
			if x != nil {
				x.ents, x.idx, x.nsym, x.count = nil, map[any]*oent{}, 0, 0
			}
			return nil
		}
		panic(unsupported("clear"))

	case "print", "println":
		return nil

	case "len":
		switch x := args[0].(type) {
		case string:
			return len(x)
		case array:
			return len(x)
		case *value:
			return len((*x).(array))
		case []value:
			return len(x)
		case *omap:
			if x == nil {
				return 0
			}
			return x.count
		case *symStr:
			return i.symStrLen(x)
		default:
			panic(unsupported(fmt.Sprintf("len: %T", x)))
		}

	case "cap":
		switch x := args[0].(type) {
		case array:
			return cap(x)
		case *value:
			return cap((*x).(array))
		case []value:
			return cap(x)
		}
		panic(unsupported("cap"))

	case "min", "max":
		for _, a := range args {
			if isSym(a) {
				panic(unsupported("min/max builtin on symbolic values"))
			}
		}
		if fn.Name() == "min" {
			return foldLeft(min, args)
		}
		return foldLeft(max, args)

	case "real":
		switch c := args[0].(type) {
		case complex64:
			return real(c)
		case complex128:
			return real(c)
		case *symC:
			return i.rval(c.re)
		}
	case "imag":
		switch c := args[0].(type) {
		case complex64:
			return imag(c)
		case complex128:
			return imag(c)
		case *symC:
			return i.rval(c.im)
		}
	case "complex":
		a, aok := args[0].(float64)
		b, bok := args[1].(float64)
		if aok && bok {
			return complex(a, b)
		}
		if f, ok := args[0].(float32); ok {
			return complex(f, args[1].(float32))
		}
		re, ok1 := i.toR(args[0])
		im, ok2 := i.toR(args[1])
		if !ok1 || !ok2 {
			return i.nonFiniteC()
		}
		return i.cval(re, im)

	case "panic":
		panic(targetPanic{args[0]})

	case "recover":
		return doRecover(caller)

	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			i.nilDeref()
		}
		return args[0]

	case "ssa:deferstack":
		return &caller.defers
	}
	panic(unsupported("builtin " + fn.Name()))
}

func isSym(v value) bool {
	switch v.(type) {
	case *term.I, *term.R, *term.B, *symC, *symStr:
		return true
	}
	return false
}
