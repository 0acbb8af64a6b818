package interp

import (
	"fmt"
	"go/token"
	"strings"

	"verif/engine/term"
)

// symStr is a string with symbolic pieces. A piece is literal text or a token
// standing for an unknown, separator-free text: the formatting of a symbolic
// number, or an opaque name identified by an integer term.
type symStr struct{ parts []spart }

type spart struct {
	lit string
	tok *stok
}

type stok struct {
	kind string // "num", "name", "byte"
	verb string // formatting verb for numbers
	v    value  // *term.R, *term.I, float64, int
	k    int    // byte position for kind "byte"
}

func tokStr(t *stok) *symStr { return &symStr{[]spart{{tok: t}}} }

func toParts(v value) []spart {
	switch v := v.(type) {
	case string:
		if v == "" {
			return nil
		}
		return []spart{{lit: v}}
	case *symStr:
		return v.parts
	}
	panic(unsupported(fmt.Sprintf("string from %T", v)))
}

func fromParts(p []spart) value {
	var out []spart
	for _, x := range p {
		if x.tok == nil {
			if x.lit == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].tok == nil {
				out[n-1].lit += x.lit
				continue
			}
		}
		out = append(out, x)
	}
	if len(out) == 0 {
		return ""
	}
	if len(out) == 1 && out[0].tok == nil {
		return out[0].lit
	}
	return &symStr{out}
}

func (i *interpreter) strBinop(op token.Token, x, y value) value {
	switch op {
	case token.ADD:
		return fromParts(append(append([]spart(nil), toParts(x)...), toParts(y)...))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		// ordering of two opaque names: by their identifying integers
		a, b := toParts(x), toParts(y)
		for len(a) > 0 && len(b) > 0 && a[0].tok == nil && b[0].tok == nil {
			if a[0].lit == b[0].lit {
				a, b = a[1:], b[1:]
				continue
			}
			return binopC(op, nil, a[0].lit, b[0].lit)
		}
		if len(a) == 1 && len(b) == 1 && a[0].tok != nil && b[0].tok != nil && a[0].tok.kind == "name" && b[0].tok.kind == "name" {
			return i.binopInt(op, typInt, a[0].tok.v, b[0].tok.v)
		}
	}
	panic(unsupported("symbolic string " + op.String()))
}

// strEq: tokens are pairwise comparable when of the same kind; a token never
// equals literal text (names are drawn from a reserved alphabet, and numbers
// compare by value and verb).
func (i *interpreter) strEq(x, y value) *term.B {
	a, b := toParts(x), toParts(y)
	c := i.p.C
	r := term.True
	for len(a) > 0 && len(b) > 0 {
		switch {
		case a[0].tok == nil && b[0].tok == nil:
			l1, l2 := a[0].lit, b[0].lit
			n := len(l1)
			if len(l2) < n {
				n = len(l2)
			}
			if l1[:n] != l2[:n] {
				return term.False
			}
			a = rest(a, n)
			b = rest(b, n)
		case a[0].tok != nil && b[0].tok != nil:
			s, t := a[0].tok, b[0].tok
			if s.kind != t.kind || s.verb != t.verb || s.k != t.k {
				return term.False
			}
			switch s.v.(type) {
			case *term.I, int, int64:
				r = c.And(r, c.IEqT(i.toI(s.v), i.toI(t.v)))
			case *term.R, float64:
				p, _ := i.toR(s.v)
				q, _ := i.toR(t.v)
				r = c.And(r, c.Eq(p, q))
			default:
				panic(unsupported("token equality"))
			}
			a, b = a[1:], b[1:]
		default:
			return term.False
		}
	}
	if len(a) > 0 || len(b) > 0 {
		return term.False
	}
	return r
}

func rest(p []spart, n int) []spart {
	if len(p[0].lit) == n {
		return p[1:]
	}
	q := append([]spart(nil), p...)
	q[0].lit = q[0].lit[n:]
	return q
}

// toBytes represents a string as a byte slice; each token is one element.
func (i *interpreter) toBytes(v value) []value {
	out := []value{}
	for _, p := range toParts(v) {
		if p.tok != nil {
			out = append(out, p.tok)
			continue
		}
		for k := 0; k < len(p.lit); k++ {
			out = append(out, p.lit[k])
		}
	}
	return out
}

func (i *interpreter) bytesToString(x []value) value {
	var parts []spart
	var sb strings.Builder
	for _, e := range x {
		switch e := e.(type) {
		case byte:
			sb.WriteByte(e)
		case rune:
			sb.WriteRune(e)
		case *stok:
			parts = append(parts, spart{lit: sb.String()}, spart{tok: e})
			sb.Reset()
		case *term.I:
			sb.WriteByte(byte(i.p.Concretize(e)))
		default:
			panic(unsupported(fmt.Sprintf("byte %T", e)))
		}
	}
	parts = append(parts, spart{lit: sb.String()})
	return fromParts(parts)
}

// positions inside a symStr: each token has width 1.
func (i *interpreter) symStrLen(s *symStr) value {
	panic(unsupported("length of a symbolic string"))
}

func (i *interpreter) symStrIndex(s *symStr, idx value) value {
	k := i.concInt(idx)
	b := i.toBytes(s)
	if k < 0 || k >= int64(len(b)) {
		panic(unsupported("index into a symbolic string"))
	}
	for j := int64(0); j <= k; j++ {
		if _, ok := b[j].(byte); !ok {
			panic(unsupported("index into a symbolic string"))
		}
	}
	return b[k]
}

func (i *interpreter) symStrSlice(s *symStr, lo, hi value) value {
	if hi == nil && lo != nil {
		k := i.concInt(lo)
		b := i.toBytes(s)
		for j := int64(0); j < k; j++ {
			if j >= int64(len(b)) {
				panic(unsupported("slice of a symbolic string"))
			}
			if _, ok := b[j].(byte); !ok {
				panic(unsupported("slice of a symbolic string"))
			}
		}
		return i.bytesToString(b[k:])
	}
	panic(unsupported("slice of a symbolic string"))
}

// splitSym splits at a literal separator.
func splitSym(v value, sep string, n int) []value {
	var out []value
	var cur []spart
	for _, p := range toParts(v) {
		if p.tok != nil {
			cur = append(cur, p)
			continue
		}
		l := p.lit
		for {
			if n > 0 && len(out) == n-1 {
				break
			}
			k := strings.Index(l, sep)
			if k < 0 {
				break
			}
			cur = append(cur, spart{lit: l[:k]})
			out = append(out, fromParts(cur))
			cur = nil
			l = l[k+len(sep):]
		}
		cur = append(cur, spart{lit: l})
	}
	return append(out, fromParts(cur))
}
