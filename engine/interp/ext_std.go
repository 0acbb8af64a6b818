package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/engine/term"
)

const (
	tokADD = token.ADD
	tokMUL = token.MUL
	tokQUO = token.QUO
)

var typF64 = types.Typ[types.Float64]

// ptrTo is the type *pkg.name.
func (pr *Program) ptrTo(pkg, name string) types.Type {
	p := pr.ByPath[pkg]
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("no type " + pkg + "." + name))
	}
	return types.NewPointer(o.Type())
}

func (pr *Program) named(pkg, name string) types.Type {
	return pr.ptrTo(pkg, name).(*types.Pointer).Elem()
}

func (i *interpreter) newError(msg value) iface {
	cell := value(structure{msg})
	return iface{t: i.prog.ptrTo("errors", "errorString"), v: &cell}
}

func nilErr() value { return iface{} }

// errString calls Error() on an error interface.
func (i *interpreter) methodStr(fr *frame, x iface, name string) (value, bool) {
	ms := types.NewMethodSet(x.t)
	for k := 0; k < ms.Len(); k++ {
		f, ok := ms.At(k).Obj().(*types.Func)
		if !ok || f.Name() != name {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
			fn := i.prog.lookupMethod(x.t, f)
			if fn == nil {
				return nil, false
			}
			return call(i, fr, 0, fn, []value{x.v}), true
		}
	}
	return nil, false
}

// fmtArg formats one argument with one verb.
func (i *interpreter) fmtArg(fr *frame, spec string, verb byte, arg value) []spart {
	x, ok := arg.(iface)
	if !ok {
		return []spart{{lit: toString(arg)}}
	}
	if x.t == nil {
		return []spart{{lit: fmt.Sprintf(spec, nil)}}
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if s, ok := i.methodStr(fr, x, m); ok {
				if c, ok := s.(string); ok {
					return []spart{{lit: fmt.Sprintf(spec, c)}}
				}
				return toParts(s)
			}
		}
	}
	if verb == 'T' {
		return []spart{{lit: x.t.String()}}
	}
	return i.fmtVal(spec, verb, x.v, x.t)
}

// canonVerb drops the width of a verb, which symbolic text does not show, and spells out the precision.
func canonVerb(s string) string {
	if len(s) < 2 || s[0] != '%' {
		return s
	}
	v := s[len(s)-1]
	mid := strings.TrimLeft(s[1:len(s)-1], "-")
	if strings.HasPrefix(mid, "0") {
		return s
	}
	k := 0
	for k < len(mid) && mid[k] >= '0' && mid[k] <= '9' {
		k++
	}
	mid = mid[k:]
	if mid == "" && (v == 'f' || v == 'F' || v == 'e') {
		mid = ".6"
	}
	if v == 'F' {
		v = 'f'
	}
	return "%" + mid + string(v)
}

func (i *interpreter) fmtVal(spec string, verb byte, v value, t types.Type) []spart {
	switch y := v.(type) {
	case *term.I:
		return []spart{{tok: &stok{kind: "num", verb: "%d", v: y}}}
	case *term.R:
		return []spart{{tok: &stok{kind: "num", verb: canonVerb(spec), v: y}}}
	case *term.B:
		if i.p.Decide(y) {
			return []spart{{lit: "true"}}
		}
		return []spart{{lit: "false"}}
	case *symC:
		return []spart{{lit: "("}, {tok: &stok{kind: "num", verb: spec, v: y.re}}, {lit: "+"}, {tok: &stok{kind: "num", verb: spec, v: y.im}}, {lit: "i)"}}
	case *symStr:
		if verb == 'q' {
			return append(append([]spart{{lit: "\""}}, y.parts...), spart{lit: "\""})
		}
		return y.parts
	case []value:
		if verb == 's' || verb == 'x' {
			if _, isB := elemBasic(t, types.Byte); isB {
				return toParts(i.bytesToString(y))
			}
		}
		var et types.Type
		if sl, ok := t.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		return i.fmtSeq(spec, verb, y, et)
	case array:
		return i.fmtSeq(spec, verb, y, t.Underlying().(*types.Array).Elem())
	case structure:
		out := []spart{{lit: "{"}}
		st := t.Underlying().(*types.Struct)
		for k := range y {
			if k > 0 {
				out = append(out, spart{lit: " "})
			}
			if verb == 'v' && strings.Contains(spec, "+") {
				out = append(out, spart{lit: st.Field(k).Name() + ":"})
			}
			out = append(out, i.fmtVal(spec, verb, y[k], st.Field(k).Type())...)
		}
		return append(out, spart{lit: "}"})
	case iface:
		if y.t == nil {
			return []spart{{lit: "<nil>"}}
		}
		return i.fmtVal(spec, verb, y.v, y.t)
	case *value:
		if y == nil {
			return []spart{{lit: "<nil>"}}
		}
		return []spart{{lit: "0xc000000000"}}
	case nil, *omap:
		return []spart{{lit: "map[...]"}}
	}
	return []spart{{lit: fmt.Sprintf(spec, v)}}
}

func elemBasic(t types.Type, k types.BasicKind) (types.Type, bool) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return sl.Elem(), ok && b.Kind() == k
}

func (i *interpreter) fmtSeq(spec string, verb byte, y []value, et types.Type) []spart {
	out := []spart{{lit: "["}}
	for k := range y {
		if k > 0 {
			out = append(out, spart{lit: " "})
		}
		out = append(out, i.fmtVal(spec, verb, y[k], et)...)
	}
	return append(out, spart{lit: "]"})
}

func (i *interpreter) sprintf(fr *frame, format value, args []value) value {
	f, ok := format.(string)
	if !ok {
		panic(unsupported("symbolic format string"))
	}
	var out []spart
	ai := 0
	for k := 0; k < len(f); {
		j := strings.IndexByte(f[k:], '%')
		if j < 0 {
			out = append(out, spart{lit: f[k:]})
			break
		}
		out = append(out, spart{lit: f[k : k+j]})
		k += j
		e := k + 1
		for e < len(f) && strings.IndexByte("+-# 0123456789.*", f[e]) >= 0 {
			e++
		}
		if e >= len(f) {
			out = append(out, spart{lit: "%!(NOVERB)"})
			break
		}
		spec := f[k : e+1]
		verb := f[e]
		k = e + 1
		if verb == '%' {
			out = append(out, spart{lit: "%"})
			continue
		}
		for strings.Contains(spec, "*") && ai < len(args) {
			w, ok := args[ai].(iface)
			if !ok {
				panic(unsupported("format width"))
			}
			spec = strings.Replace(spec, "*", strconv.Itoa(int(asInt64(w.v))), 1)
			ai++
		}
		if ai >= len(args) {
			out = append(out, spart{lit: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		out = append(out, i.fmtArg(fr, spec, verb, args[ai])...)
		ai++
	}
	if ai < len(args) {
		out = append(out, spart{lit: "%!(EXTRA)"})
	}
	return fromParts(out)
}

func (i *interpreter) sprint(fr *frame, args []value, ln bool) value {
	var out []spart
	for k, a := range args {
		if k > 0 {
			add := ln
			if !ln {
				_, s1 := strArg(args[k-1])
				_, s2 := strArg(a)
				add = !s1 && !s2
			}
			if add {
				out = append(out, spart{lit: " "})
			}
		}
		out = append(out, i.fmtArg(fr, "%v", 'v', a)...)
	}
	if ln {
		out = append(out, spart{lit: "\n"})
	}
	return fromParts(out)
}

func strArg(v value) (value, bool) {
	x, ok := v.(iface)
	if !ok {
		return nil, false
	}
	switch x.v.(type) {
	case string, *symStr:
		return x.v, true
	}
	return nil, false
}

func sl(v value) []value {
	s, _ := v.([]value)
	return s
}

func (i *interpreter) writeTo(fr *frame, w value, s value) value {
	x, ok := w.(iface)
	if !ok || x.t == nil {
		i.nilDeref()
	}
	data := i.toBytes(s)
	m := i.prog.methodByName(x.t, "Write")
	if m == nil {
		panic(unsupported("Write method of " + x.t.String()))
	}
	return call(i, fr, 0, m, []value{x.v, data})
}

func init() {
	reg("fmt.Sprintf", func(fr *frame, a []value) value { return fr.i.sprintf(fr, a[0], sl(a[1])) })
	reg("fmt.Sprint", func(fr *frame, a []value) value { return fr.i.sprint(fr, sl(a[0]), false) })
	reg("fmt.Sprintln", func(fr *frame, a []value) value { return fr.i.sprint(fr, sl(a[0]), true) })
	reg("fmt.Errorf", func(fr *frame, a []value) value {
		f, ok := a[0].(string)
		if !ok {
			panic(unsupported("symbolic format string"))
		}
		msg := fr.i.sprintf(fr, strings.ReplaceAll(f, "%w", "%v"), sl(a[1]))
		if at := strings.Index(f, "%w"); at >= 0 {
			if k := strings.Count(strings.ReplaceAll(f[:at], "%%", ""), "%"); k < len(sl(a[1])) {
				if e, ok := sl(a[1])[k].(iface); ok && e.t != nil {
					cell := value(structure{msg, e})
					return iface{t: fr.i.prog.ptrTo("fmt", "wrapError"), v: &cell}
				}
			}
		}
		return fr.i.newError(msg)
	})
	out := func(fr *frame, s value) value {
		fr.i.world.stdout = append(fr.i.world.stdout, toParts(s)...)
		return tuple{0, nilErr()}
	}
	reg("fmt.Printf", func(fr *frame, a []value) value { return out(fr, fr.i.sprintf(fr, a[0], sl(a[1]))) })
	reg("fmt.Println", func(fr *frame, a []value) value { return out(fr, fr.i.sprint(fr, sl(a[0]), true)) })
	reg("fmt.Print", func(fr *frame, a []value) value { return out(fr, fr.i.sprint(fr, sl(a[0]), false)) })
	reg("fmt.Fprintf", func(fr *frame, a []value) value { return fr.i.writeTo(fr, a[0], fr.i.sprintf(fr, a[1], sl(a[2]))) })
	reg("fmt.Fprintln", func(fr *frame, a []value) value { return fr.i.writeTo(fr, a[0], fr.i.sprint(fr, sl(a[1]), true)) })
	reg("fmt.Fprint", func(fr *frame, a []value) value { return fr.i.writeTo(fr, a[0], fr.i.sprint(fr, sl(a[1]), false)) })

	nop := func(fr *frame, a []value) value { return nil }
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "log.SetFlags", "log.SetPrefix"} {
		reg(n, nop)
	}
	reg("log.Fatalf", func(fr *frame, a []value) value {
		panic(exitPanic{1, toString(fr.i.sprintf(fr, a[0], sl(a[1])))})
	})
	fatal := func(fr *frame, a []value) value { panic(exitPanic{1, toString(fr.i.sprint(fr, sl(a[0]), false))}) }
	reg("log.Fatal", fatal)
	reg("log.Fatalln", fatal)
	reg("log.Panicf", func(fr *frame, a []value) value {
		panic(targetPanic{iface{types.Typ[types.String], fr.i.sprintf(fr, a[0], sl(a[1]))}})
	})
	reg("os.Exit", func(fr *frame, a []value) value { panic(exitPanic{int(asInt64(a[0])), "os.Exit"}) })

	// strconv
	reg("strconv.Itoa", func(fr *frame, a []value) value {
		if t, ok := a[0].(*term.I); ok {
			return tokStr(&stok{kind: "num", verb: "%d", v: t})
		}
		return strconv.Itoa(a[0].(int))
	})
	reg("strconv.FormatFloat", func(fr *frame, a []value) value {
		if t, ok := a[0].(*term.R); ok {
			prec := int(asInt64(a[2]))
			verb := "%" + string(a[1].(byte))
			if prec >= 0 {
				verb = fmt.Sprintf("%%.%d%c", prec, a[1].(byte))
			} else {
				verb = "exact"
			}
			return tokStr(&stok{kind: "num", verb: verb, v: t})
		}
		return strconv.FormatFloat(a[0].(float64), a[1].(byte), int(asInt64(a[2])), int(asInt64(a[3])))
	})
	numErr := func(fr *frame, err error) value {
		if err == nil {
			return nilErr()
		}
		return fr.i.newError(err.Error())
	}
	reg("strconv.ParseFloat", func(fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			v, err := strconv.ParseFloat(s, int(asInt64(a[1])))
			return tuple{v, numErr(fr, err)}
		}
		p := toParts(a[0])
		if len(p) == 1 && p[0].tok != nil && p[0].tok.kind == "num" {
			return tuple{fr.i.parseTok(p[0].tok), nilErr()}
		}
		panic(unsupported("ParseFloat of a symbolic string"))
	})
	reg("strconv.Atoi", func(fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			v, err := strconv.Atoi(s)
			return tuple{v, numErr(fr, err)}
		}
		p := toParts(a[0])
		if len(p) == 1 && p[0].tok != nil && p[0].tok.kind == "num" {
			if t, ok := p[0].tok.v.(*term.I); ok {
				return tuple{t, nilErr()}
			}
		}
		panic(unsupported("Atoi of a symbolic string"))
	})
	reg("strconv.ParseInt", func(fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			v, err := strconv.ParseInt(s, int(asInt64(a[1])), int(asInt64(a[2])))
			return tuple{v, numErr(fr, err)}
		}
		panic(unsupported("ParseInt of a symbolic string"))
	})
	reg("strconv.Quote", func(fr *frame, a []value) value { return strconv.Quote(a[0].(string)) })
	reg("strconv.FormatInt", func(fr *frame, a []value) value {
		return strconv.FormatInt(a[0].(int64), int(asInt64(a[1])))
	})
	reg("strconv.FormatUint", func(fr *frame, a []value) value {
		return strconv.FormatUint(a[0].(uint64), int(asInt64(a[1])))
	})
	reg("strconv.FormatBool", func(fr *frame, a []value) value {
		if fr.i.decide(a[0]) {
			return "true"
		}
		return "false"
	})
	reg("strconv.ParseUint", func(fr *frame, a []value) value {
		v, err := strconv.ParseUint(a[0].(string), int(asInt64(a[1])), int(asInt64(a[2])))
		return tuple{v, numErr(fr, err)}
	})
	reg("strconv.AppendInt", func(fr *frame, a []value) value {
		return append(sl(a[0]), fr.i.toBytes(strconv.FormatInt(a[1].(int64), int(asInt64(a[2]))))...)
	})
	reg("strconv.ParseBool", func(fr *frame, a []value) value {
		v, err := strconv.ParseBool(a[0].(string))
		return tuple{v, numErr(fr, err)}
	})

	// strings
	strFn := func(name string, nat func(a []value) value, sym func(fr *frame, a []value) value) {
		reg("strings."+name, func(fr *frame, a []value) value {
			if allConc(a) {
				return nat(a)
			}
			if sym == nil {
				panic(unsupported("strings." + name + " of a symbolic string"))
			}
			return sym(fr, a)
		})
	}
	toVals := func(s []string) value {
		r := make([]value, len(s))
		for k := range s {
			r[k] = s[k]
		}
		return r
	}
	S := func(v value) string { return v.(string) }
	strFn("Split", func(a []value) value { return toVals(strings.Split(S(a[0]), S(a[1]))) }, func(fr *frame, a []value) value { return splitSym(a[0], S(a[1]), -1) })
	strFn("SplitN", func(a []value) value { return toVals(strings.SplitN(S(a[0]), S(a[1]), int(asInt64(a[2])))) }, func(fr *frame, a []value) value { return splitSym(a[0], S(a[1]), int(asInt64(a[2]))) })
	strFn("Fields", func(a []value) value { return toVals(strings.Fields(S(a[0]))) }, func(fr *frame, a []value) value {
		var out []value
		for _, x := range splitSym(a[0], " ", -1) {
			if s, ok := x.(string); ok && s == "" {
				continue
			}
			out = append(out, x)
		}
		return out
	})
	reg("strings.Join", func(fr *frame, a []value) value {
		var p []spart
		for k, x := range sl(a[0]) {
			if k > 0 {
				p = append(p, toParts(a[1])...)
			}
			p = append(p, toParts(x)...)
		}
		return fromParts(p)
	})
	contains := func(fr *frame, a []value) value {
		for _, p := range toParts(a[0]) {
			if p.tok == nil && strings.Contains(p.lit, S(a[1])) {
				return true
			}
		}
		return false
	}
	strFn("Contains", func(a []value) value { return strings.Contains(S(a[0]), S(a[1])) }, contains)
	strFn("ContainsAny", func(a []value) value { return strings.ContainsAny(S(a[0]), S(a[1])) }, func(fr *frame, a []value) value {
		for _, p := range toParts(a[0]) {
			if p.tok == nil && strings.ContainsAny(p.lit, S(a[1])) {
				return true
			}
		}
		return false
	})
	strFn("HasPrefix", func(a []value) value { return strings.HasPrefix(S(a[0]), S(a[1])) }, func(fr *frame, a []value) value {
		p := toParts(a[0])
		pre, ok := a[1].(string)
		if !ok {
			panic(unsupported("HasPrefix with a symbolic prefix"))
		}
		if len(p) == 0 || p[0].tok != nil {
			return pre == ""
		}
		if len(p[0].lit) >= len(pre) {
			return strings.HasPrefix(p[0].lit, pre)
		}
		return false
	})
	strFn("HasSuffix", func(a []value) value { return strings.HasSuffix(S(a[0]), S(a[1])) }, func(fr *frame, a []value) value {
		p := toParts(a[0])
		suf, ok := a[1].(string)
		if !ok {
			panic(unsupported("HasSuffix with a symbolic suffix"))
		}
		if len(p) == 0 || p[len(p)-1].tok != nil {
			return suf == ""
		}
		return strings.HasSuffix(p[len(p)-1].lit, suf)
	})
	strFn("TrimSpace", func(a []value) value { return strings.TrimSpace(S(a[0])) }, func(fr *frame, a []value) value {
		p := append([]spart(nil), toParts(a[0])...)
		if p[0].tok == nil {
			p[0].lit = strings.TrimLeft(p[0].lit, " \t\r\n")
		}
		if l := len(p) - 1; p[l].tok == nil {
			p[l].lit = strings.TrimRight(p[l].lit, " \t\r\n")
		}
		return fromParts(p)
	})
	replace := func(v value, from, to value, n int) value {
		var p []spart
		for k, x := range splitSym(v, S(from), n) {
			if k > 0 {
				p = append(p, toParts(to)...)
			}
			p = append(p, toParts(x)...)
		}
		return fromParts(p)
	}
	strFn("ReplaceAll", func(a []value) value { return strings.ReplaceAll(S(a[0]), S(a[1]), S(a[2])) }, func(fr *frame, a []value) value { return replace(a[0], a[1], a[2], -1) })
	strFn("Replace", func(a []value) value { return strings.Replace(S(a[0]), S(a[1]), S(a[2]), int(asInt64(a[3]))) }, func(fr *frame, a []value) value {
		n := int(asInt64(a[3]))
		if n >= 0 {
			n++
		}
		return replace(a[0], a[1], a[2], n)
	})
	strFn("ToLower", func(a []value) value { return strings.ToLower(S(a[0])) }, nil)
	strFn("ToUpper", func(a []value) value { return strings.ToUpper(S(a[0])) }, nil)
	strFn("Index", func(a []value) value { return strings.Index(S(a[0]), S(a[1])) }, nil)
	strFn("LastIndex", func(a []value) value { return strings.LastIndex(S(a[0]), S(a[1])) }, nil)
	strFn("IndexByte", func(a []value) value { return strings.IndexByte(S(a[0]), a[1].(byte)) }, nil)
	strFn("Count", func(a []value) value { return strings.Count(S(a[0]), S(a[1])) }, nil)
	strFn("Repeat", func(a []value) value { return strings.Repeat(S(a[0]), int(asInt64(a[1]))) }, nil)
	strFn("Trim", func(a []value) value { return strings.Trim(S(a[0]), S(a[1])) }, nil)
	strFn("TrimLeft", func(a []value) value { return strings.TrimLeft(S(a[0]), S(a[1])) }, nil)
	strFn("TrimRight", func(a []value) value { return strings.TrimRight(S(a[0]), S(a[1])) }, nil)
	strFn("TrimPrefix", func(a []value) value { return strings.TrimPrefix(S(a[0]), S(a[1])) }, func(fr *frame, a []value) value {
		p := append([]spart(nil), toParts(a[0])...)
		if len(p) > 0 && p[0].tok == nil {
			p[0].lit = strings.TrimPrefix(p[0].lit, S(a[1]))
		}
		return fromParts(p)
	})
	strFn("TrimSuffix", func(a []value) value { return strings.TrimSuffix(S(a[0]), S(a[1])) }, func(fr *frame, a []value) value {
		p := append([]spart(nil), toParts(a[0])...)
		if l := len(p) - 1; l >= 0 && p[l].tok == nil {
			p[l].lit = strings.TrimSuffix(p[l].lit, S(a[1]))
		}
		return fromParts(p)
	})
	strFn("EqualFold", func(a []value) value { return strings.EqualFold(S(a[0]), S(a[1])) }, nil)

	reg("(*bufio.Writer).WriteString", func(fr *frame, a []value) value {
		m := fr.i.prog.methodByName(types.NewPointer(fr.i.prog.ByPath["bufio"].Type("Writer").Type()), "Write")
		return call(fr.i, fr, 0, m, []value{a[0], fr.i.toBytes(a[1])})
	})
	reg("(*encoding/csv.Writer).fieldNeedsQuotes", func(fr *frame, a []value) value {
		comma, ok := (*fr.addr(a[0])).(structure)[0].(rune)
		if !ok {
			panic(unsupported("symbolic separator"))
		}
		p := toParts(a[1])
		for k, x := range p {
			if x.tok != nil {
				continue
			}
			if k == 0 {
				if r, _ := utf8.DecodeRuneInString(x.lit); unicode.IsSpace(r) || (len(p) == 1 && x.lit == "\\.") {
					return true
				}
			}
			if strings.ContainsRune(x.lit, comma) || strings.ContainsAny(x.lit, "\"\r\n") {
				return true
			}
		}
		return false
	})

	// strings.Builder (uses unsafe in the library)
	bld := func(fr *frame, a []value) structure { return (*fr.addr(a[0])).(structure) }
	app := func(fr *frame, a []value, d []value) {
		st := bld(fr, a)
		st[1] = append(sl(st[1])[:len(sl(st[1])):len(sl(st[1]))], d...)
	}
	reg("(*strings.Builder).WriteString", func(fr *frame, a []value) value {
		app(fr, a, fr.i.toBytes(a[1]))
		return tuple{0, nilErr()}
	})
	reg("(*strings.Builder).Write", func(fr *frame, a []value) value {
		app(fr, a, sl(a[1]))
		return tuple{len(sl(a[1])), nilErr()}
	})
	reg("(*strings.Builder).WriteByte", func(fr *frame, a []value) value { app(fr, a, []value{a[1]}); return nilErr() })
	reg("(*strings.Builder).WriteRune", func(fr *frame, a []value) value {
		app(fr, a, fr.i.toBytes(string(a[1].(rune))))
		return tuple{1, nilErr()}
	})
	reg("(*strings.Builder).String", func(fr *frame, a []value) value { return fr.i.bytesToString(sl(bld(fr, a)[1])) })
	reg("(*strings.Builder).Len", func(fr *frame, a []value) value { return len(sl(bld(fr, a)[1])) })
	reg("(*strings.Builder).Reset", func(fr *frame, a []value) value { bld(fr, a)[1] = []value(nil); return nil })
	reg("(*strings.Builder).Grow", func(fr *frame, a []value) value { return nil })

	// sort: slices of basic values natively, everything else from source
	reg("sort.Strings", func(fr *frame, a []value) value {
		s := sl(a[0])
		for k := 1; k < len(s); k++ { // insertion sort with possibly symbolic comparisons
			for j := k; j > 0 && fr.i.decide(fr.i.binop(token.LSS, types.Typ[types.String], s[j], s[j-1])); j-- {
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	})
	sortNum := func(t types.Type) extFn {
		return func(fr *frame, a []value) value {
			s := sl(a[0])
			for k := 1; k < len(s); k++ {
				for j := k; j > 0 && fr.i.decide(fr.i.binop(token.LSS, t, s[j], s[j-1])); j-- {
					s[j], s[j-1] = s[j-1], s[j]
				}
			}
			return nil
		}
	}
	reg("sort.Ints", sortNum(typInt))
	reg("sort.Float64s", sortNum(typF64))
	sliceSort := func(fr *frame, a []value) value {
		x, ok := a[0].(iface)
		if !ok {
			panic(unsupported("sort.Slice"))
		}
		s := sl(x.v)
		// less refers to positions, so sort in place by adjacent swaps
		for k := 1; k < len(s); k++ {
			for j := k; j > 0 && fr.i.decide(call(fr.i, fr, 0, a[1], []value{j, j - 1})); j-- {
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}
	reg("sort.Slice", sliceSort)
	reg("sort.SliceStable", sliceSort)

	// regexp, natively on concrete strings
	reg("regexp.MustCompile", func(fr *frame, a []value) value {
		re, err := regexp.Compile(S(a[0]))
		if err != nil {
			panic(targetPanic{"regexp: " + err.Error()})
		}
		return &native{re}
	})
	reg("regexp.Compile", func(fr *frame, a []value) value {
		re, err := regexp.Compile(S(a[0]))
		if err != nil {
			return tuple{(*value)(nil), fr.i.newError(err.Error())}
		}
		return tuple{&native{re}, nilErr()}
	})
	reg("regexp.QuoteMeta", func(fr *frame, a []value) value { return regexp.QuoteMeta(S(a[0])) })
	re := func(v value) *regexp.Regexp {
		n, ok := v.(*native)
		if !ok {
			panic(unsupported("regexp value"))
		}
		return n.v.(*regexp.Regexp)
	}
	rx := func(name string, f func(r *regexp.Regexp, a []value) value) {
		reg("(*regexp.Regexp)."+name, func(fr *frame, a []value) value {
			if !allConc(a) {
				panic(unsupported("regexp on a symbolic string"))
			}
			return f(re(a[0]), a)
		})
	}
	ints := func(s []int) value {
		if s == nil {
			return []value(nil)
		}
		r := make([]value, len(s))
		for k := range s {
			r[k] = s[k]
		}
		return r
	}
	strsN := func(s []string) value {
		if s == nil {
			return []value(nil)
		}
		return toVals(s)
	}
	rx("FindString", func(r *regexp.Regexp, a []value) value { return r.FindString(S(a[1])) })
	rx("FindStringIndex", func(r *regexp.Regexp, a []value) value { return ints(r.FindStringIndex(S(a[1]))) })
	rx("FindStringSubmatchIndex", func(r *regexp.Regexp, a []value) value { return ints(r.FindStringSubmatchIndex(S(a[1]))) })
	rx("MatchString", func(r *regexp.Regexp, a []value) value { return r.MatchString(S(a[1])) })
	rx("ReplaceAllString", func(r *regexp.Regexp, a []value) value { return r.ReplaceAllString(S(a[1]), S(a[2])) })
	rx("ReplaceAllLiteralString", func(r *regexp.Regexp, a []value) value { return r.ReplaceAllLiteralString(S(a[1]), S(a[2])) })
	rx("FindStringSubmatch", func(r *regexp.Regexp, a []value) value { return strsN(r.FindStringSubmatch(S(a[1]))) })
	rx("FindAllString", func(r *regexp.Regexp, a []value) value {
		return strsN(r.FindAllString(S(a[1]), int(asInt64(a[2]))))
	})
	rx("Split", func(r *regexp.Regexp, a []value) value { return strsN(r.Split(S(a[1]), int(asInt64(a[2])))) })
	rx("String", func(r *regexp.Regexp, a []value) value { return r.String() })
	two := func(f func(s []string) value, x [][]string) value {
		if x == nil {
			return []value(nil)
		}
		r := make([]value, len(x))
		for k := range x {
			r[k] = f(x[k])
		}
		return r
	}
	rx("FindAllStringSubmatch", func(r *regexp.Regexp, a []value) value {
		return two(strsN, r.FindAllStringSubmatch(S(a[1]), int(asInt64(a[2]))))
	})
	rx("FindAllStringIndex", func(r *regexp.Regexp, a []value) value {
		x := r.FindAllStringIndex(S(a[1]), int(asInt64(a[2])))
		if x == nil {
			return []value(nil)
		}
		res := make([]value, len(x))
		for k := range x {
			res[k] = ints(x[k])
		}
		return res
	})
	reg("regexp.MatchString", func(fr *frame, a []value) value {
		ok, err := regexp.MatchString(S(a[0]), S(a[1]))
		if err != nil {
			return tuple{false, fr.i.newError(err.Error())}
		}
		return tuple{ok, nilErr()}
	})

	// randomness is an arbitrary value; after Seed the same sequence of arbitrary values starts again
	draw := func(p *Path, kind string, mk func() value) value {
		if !p.rseeded {
			return mk()
		}
		k := fmt.Sprintf("%d/%d/%s", p.rseed, p.rcount, kind)
		p.rcount++
		v, ok := p.rmemo[k]
		if !ok {
			v = mk()
			if p.rmemo == nil {
				p.rmemo = map[string]value{}
			}
			p.rmemo[k] = v
		}
		return v
	}
	for _, pre := range []string{"math/rand.", "(*math/rand.Rand)."} {
		off := 0
		if pre[0] == '(' {
			off = 1
		}
		for _, q := range []struct {
			n      string
			lo, hi float64
		}{{"Float64", 0, 0.999999}, {"NormFloat64", -4, 4}, {"ExpFloat64", 0, 8}} {
			q := q
			reg(pre+q.n, func(fr *frame, a []value) value {
				return draw(fr.i.p, q.n, func() value { return fr.i.p.inFloat("rand", q.lo, q.hi) })
			})
		}
		reg(pre+"Intn", func(fr *frame, a []value) value {
			n := fr.i.concInt(a[off])
			return draw(fr.i.p, fmt.Sprint("Intn", n), func() value { return fr.i.ival(fr.i.p.inInt("randint", 0, n-1), typInt) })
		})
		// used for identifiers: distinct values
		reg(pre+"Uint32", func(fr *frame, a []value) value {
			fr.i.p.Assumed["numbers drawn with rand.Uint32 (identifiers) are distinct"] = true
			fr.i.p.ruint++
			return uint32(2654435761 * uint32(fr.i.p.ruint))
		})
		for _, q := range []struct {
			n  string
			hi int64
		}{{"Int", math.MaxInt32}, {"Int31", math.MaxInt32}, {"Int63", math.MaxInt64}} {
			q := q
			reg(pre+q.n, func(fr *frame, a []value) value {
				return draw(fr.i.p, q.n, func() value { return fr.i.p.inInt("randint", 0, q.hi) })
			})
		}
	}
	reg("math/rand.Seed", func(fr *frame, a []value) value {
		fr.i.p.rseeded, fr.i.p.rseed, fr.i.p.rcount = true, fr.i.concInt(a[0]), 0
		return nil
	})
	reg("math/rand.NewSource", func(fr *frame, a []value) value { return iface{t: types.Typ[types.Int], v: 0} })
	reg("math/rand.New", func(fr *frame, a []value) value { return &native{nil} })

	reg("time.Now", func(fr *frame, a []value) value { return zero(fr.i.prog.named("time", "Time")) })
	reg("(time.Time).UnixNano", func(fr *frame, a []value) value { return int64(1234567890123456789) })
	reg("(time.Time).Unix", func(fr *frame, a []value) value { return int64(1234567890) })
	reg("(time.Time).Format", func(fr *frame, a []value) value { return "2020-01-01" })
	reg("(time.Time).String", func(fr *frame, a []value) value { return "2020-01-01" })
	reg("time.Since", func(fr *frame, a []value) value { return int64(1) })
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer"} {
		reg(n, nop)
	}
	reg("(*sync.Once).Do", func(fr *frame, a []value) value {
		st := (*fr.addr(a[0])).(structure)
		if st[0] == nil || st[0] != "done" {
			st[0] = "done"
			call(fr.i, fr, 0, a[1], nil)
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *frame, a []value) value {
		st := (*fr.addr(a[0])).(structure)
		f := st[len(st)-1]
		if isNilRef(f) {
			return iface{}
		}
		return call(fr.i, fr, 0, f, nil)
	})
	reg("(*sync.Pool).Put", nop)
	reg("runtime.GOMAXPROCS", func(fr *frame, a []value) value { return 1 })
	reg("runtime.NumCPU", func(fr *frame, a []value) value { return 1 })
	reg("internal/bytealg.IndexByteString", func(fr *frame, a []value) value { return strings.IndexByte(S(a[0]), a[1].(byte)) })
	reg("internal/bytealg.CountString", func(fr *frame, a []value) value { return strings.Count(S(a[0]), string(a[1].(byte))) })
	reg("internal/bytealg.IndexByte", func(fr *frame, a []value) value {
		for k, b := range sl(a[0]) {
			if b == a[1] {
				return k
			}
		}
		return -1
	})
	cmpBytes := func(fr *frame, x, y []value) value {
		for k := 0; k < len(x) && k < len(y); k++ {
			if !fr.i.decide(fr.i.binop(token.EQL, types.Typ[types.Uint8], x[k], y[k])) {
				if fr.i.decide(fr.i.binop(token.LSS, types.Typ[types.Uint8], x[k], y[k])) {
					return -1
				}
				return 1
			}
		}
		switch {
		case len(x) < len(y):
			return -1
		case len(x) > len(y):
			return 1
		}
		return 0
	}
	cmpStr := func(fr *frame, a []value) value {
		if allConc(a) {
			return strings.Compare(S(a[0]), S(a[1]))
		}
		if fr.i.decide(fr.i.binop(token.EQL, types.Typ[types.String], a[0], a[1])) {
			return 0
		}
		if fr.i.decide(fr.i.binop(token.LSS, types.Typ[types.String], a[0], a[1])) {
			return -1
		}
		return 1
	}
	reg("strings.NewReplacer", func(fr *frame, a []value) value {
		var p []string
		for _, x := range sl(a[0]) {
			p = append(p, S(x))
		}
		return &native{strings.NewReplacer(p...)}
	})
	reg("(*strings.Replacer).Replace", func(fr *frame, a []value) value {
		n, ok := a[0].(*native)
		if !ok || !allConc(a[1:]) {
			panic(unsupported("strings.Replacer"))
		}
		return n.v.(*strings.Replacer).Replace(S(a[1]))
	})
	reg("strings.Compare", cmpStr)
	reg("internal/bytealg.CompareString", cmpStr)
	reg("internal/bytealg.Compare", func(fr *frame, a []value) value { return cmpBytes(fr, sl(a[0]), sl(a[1])) })
	reg("bytes.Compare", func(fr *frame, a []value) value { return cmpBytes(fr, sl(a[0]), sl(a[1])) })
	reg("internal/bytealg.IndexString", func(fr *frame, a []value) value { return strings.Index(S(a[0]), S(a[1])) })
	reg("internal/bytealg.LastIndexByteString", func(fr *frame, a []value) value { return strings.LastIndexByte(S(a[0]), a[1].(byte)) })
	reg("internal/bytealg.Count", func(fr *frame, a []value) value {
		n := 0
		for _, b := range sl(a[0]) {
			if b == a[1] {
				n++
			}
		}
		return n
	})
	reg("internal/bytealg.Equal", func(fr *frame, a []value) value {
		return bval(fr.i.strEqB(sl(a[0]), sl(a[1])))
	})
	reg("bytes.Equal", func(fr *frame, a []value) value { return bval(fr.i.strEqB(sl(a[0]), sl(a[1]))) })
	reg("(*fmt.wrapError).Unwrap", func(fr *frame, a []value) value { return (*a[0].(*value)).(structure)[1] })
	reg("(*fmt.wrapError).Error", func(fr *frame, a []value) value { return (*a[0].(*value)).(structure)[0] })
	reg("errors.Is", func(fr *frame, a []value) value {
		e, ok := a[0].(iface)
		for n := 0; ok && n < 20; n++ {
			if b := bval(fr.i.eqTerm(types.Universe.Lookup("error").Type(), e, a[1])); b != false || e.t == nil {
				return b
			}
			m := fr.i.prog.methodByName(e.t, "Unwrap")
			if m == nil {
				return false
			}
			e, ok = call(fr.i, fr, 0, m, []value{e.v}).(iface)
		}
		return bval(fr.i.eqTerm(types.Universe.Lookup("error").Type(), a[0], a[1]))
	})
}

func (i *interpreter) strEqB(a, b []value) *term.B {
	x, y := i.bytesToString(a), i.bytesToString(b)
	if !isSym(x) && !isSym(y) {
		return term.Bool(x == y)
	}
	return i.strEq(x, y)
}

// parseTok reads back a formatted number: exact for %v/%g/shortest, within the
// printed precision otherwise.
func (i *interpreter) parseTok(t *stok) value {
	switch v := t.v.(type) {
	case *term.I:
		return i.rval(i.p.C.RInt(v))
	case int:
		return float64(v)
	case float64:
		return v
	case *term.R:
		eps := -1.0
		verb := t.verb
		last := verb[len(verb)-1]
		prec := 6
		if k := strings.IndexByte(verb, '.'); k >= 0 {
			n, _ := strconv.Atoi(verb[k+1 : len(verb)-1])
			prec = n
		}
		switch {
		case verb == "exact" || (last == 'v' || last == 'g') && !strings.Contains(verb, "."):
			return v
		case last == 'f':
			eps = 0.5 * math.Pow(10, float64(-prec)) * 1.0000001
		case last == 'e' || last == 'g':
			lo, hi := i.p.C.Range(v)
			m := math.Max(math.Abs(lo), math.Abs(hi))
			eps = m * math.Pow(10, float64(-prec))
		}
		if eps < 0 || math.IsInf(eps, 0) {
			panic(unsupported("parsing text formatted with " + verb))
		}
		d := i.p.C.RVar(i.p.C.Fresh("fmt"), -eps, eps)
		return i.rval(i.p.C.Add(v, d))
	}
	panic(unsupported("ParseFloat token"))
}

// native wraps a host value the program only handles through methods.
type native struct{ v any }
