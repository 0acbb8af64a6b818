package interp

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// If-conversion: a branch on a symbolic condition whose sides are free of side
// effects and meet again in one block (or both return) is executed on both
// sides, and the integers and booleans that differ become if-then-else terms.
// Anything else forks the path.

// ipdom returns the immediate post-dominator of every block (nil: the exit).
func ipdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// post-dominator sets as bitsets over n+1 nodes (n is the exit)
	full := make([]map[int]bool, n+1)
	all := func() map[int]bool {
		m := map[int]bool{}
		for k := 0; k <= n; k++ {
			m[k] = true
		}
		return m
	}
	for k := range full {
		full[k] = all()
	}
	full[n] = map[int]bool{n: true}
	for changed := true; changed; {
		changed = false
		for k := n - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			var cur map[int]bool
			if len(b.Succs) == 0 {
				cur = map[int]bool{n: true}
			} else {
				for j, s := range b.Succs {
					if j == 0 {
						cur = map[int]bool{}
						for x := range full[s.Index] {
							cur[x] = true
						}
					} else {
						for x := range cur {
							if !full[s.Index][x] {
								delete(cur, x)
							}
						}
					}
				}
			}
			cur[k] = true
			if len(cur) != len(full[k]) {
				full[k] = cur
				changed = true
			}
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for k, b := range fn.Blocks {
		// the immediate one is post-dominated by all the others
		for x := range full[k] {
			if x == k || x == n {
				continue
			}
			if len(full[x]) == len(full[k])-1 {
				out[b] = fn.Blocks[x]
			}
		}
	}
	return out
}

type leaf struct {
	cond *term.B
	pred *ssa.BasicBlock
	ret  []value
}

type mergeAbort struct{}

// tryMerge attempts to execute both sides of the branch ending fr.block.
func (fr *frame) tryMerge(cond *term.B) bool {
	fi := fr.info
	if len(fr.fn.Blocks) > 120 {
		return false
	}
	fi.pdomOnce.Do(func() { fi.pdom = ipdoms(fr.fn) })
	if fr.fn.Recover != nil {
		return false
	}
	from := fr.block
	join := fi.pdom[from]
	var leaves []leaf
	oldUndo, oldFresh := fr.undo, fr.fresh
	fr.undo, fr.fresh = nil, map[*value]bool{}
	done := false
	defer func() {
		if !done {
			for k := len(fr.undo) - 1; k >= 0; k-- {
				*fr.undo[k].p = fr.undo[k].v
			}
		}
		fr.undo, fr.fresh = oldUndo, oldFresh
	}()
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(mergeAbort); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		fr.mergeSide(from.Succs[0], from, cond, join, &leaves, 0)
		fr.mergeSide(from.Succs[1], from, fr.i.p.C.Not(cond), join, &leaves, 0)
		return true
	}()
	if !ok || len(leaves) < 2 {
		return false
	}
	if join == nil {
		n := len(leaves[0].ret)
		res := make([]value, n)
		for k := 0; k < n; k++ {
			vs := make([]value, len(leaves))
			for j := range leaves {
				vs[j] = leaves[j].ret[k]
			}
			v, ok := fr.ite(leaves, vs, fr.fn.Signature.Results().At(k).Type())
			if !ok {
				return false
			}
			res[k] = v
		}
		switch n {
		case 0:
		case 1:
			fr.result = res[0]
		default:
			fr.result = tuple(res)
		}
		fr.block = nil
		done = true
		return true
	}
	var phis []*ssa.Phi
	var vals []value
	for _, in := range join.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]value, len(leaves))
		for j, l := range leaves {
			idx := -1
			for x, p := range join.Preds {
				if p == l.pred {
					idx = x
				}
			}
			vs[j] = fr.get(phi.Edges[idx])
		}
		v, ok := fr.ite(leaves, vs, phi.Type())
		if !ok {
			return false
		}
		phis = append(phis, phi)
		vals = append(vals, v)
	}
	for k, phi := range phis {
		fr.set(phi, vals[k])
	}
	fr.prevBlock, fr.block = leaves[0].pred, join
	fr.skipPhis = true
	done = true
	return true
}

// storeUndo remembers a guarded store until the merge succeeded.
type storeUndo struct {
	p *value
	v value
}

// guardedStore makes a store that happens under cond only.
func (fr *frame) guardedStore(in *ssa.Store, cond *term.B) {
	p, ok := fr.get(in.Addr).(*value)
	if !ok || p == nil {
		panic(mergeAbort{})
	}
	v := fr.get(in.Val)
	if fr.fresh[p] {
		*p = v
		return
	}
	if !scalar(v) || !scalar(*p) {
		panic(mergeAbort{})
	}
	c := fr.i.p.C
	t := in.Val.Type()
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(mergeAbort{})
	}
	var r value
	switch {
	case b.Info()&types.IsFloat != 0:
		if _, is := in.Addr.(*ssa.FieldAddr); !is {
			panic(mergeAbort{})
		}
		x, ok1 := fr.i.toR(v)
		y, ok2 := fr.i.toR(*p)
		if !ok1 || !ok2 {
			panic(mergeAbort{})
		}
		r = fr.i.rval(c.RIte(cond, x, y))
	case b.Info()&types.IsInteger != 0:
		r = fr.i.ival(c.IIteT(cond, fr.i.toI(v), fr.i.toI(*p)), t)
	case b.Info()&types.IsBoolean != 0:
		r = bval(c.BIte(cond, fr.i.toB(v), fr.i.toB(*p)))
	default:
		panic(mergeAbort{})
	}
	fr.undo = append(fr.undo, storeUndo{p, *p})
	*p = r
}

// quiet are calls without any effect on the program's state.
var quiet = map[string]bool{"log.Printf": true, "log.Println": true, "log.Print": true}

func (fr *frame) ite(leaves []leaf, vs []value, t types.Type) (value, bool) {
	b, ok := t.Underlying().(*types.Basic)
	same := true
	for _, v := range vs[1:] {
		if !identical(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0], true
	}
	if !ok {
		return nil, false
	}
	c := fr.i.p.C
	switch {
	case b.Info()&types.IsInteger != 0:
		for _, v := range vs {
			switch v.(type) {
			case *term.I, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
			default:
				return nil, false
			}
		}
		r := fr.i.toI(vs[len(vs)-1])
		for k := len(vs) - 2; k >= 0; k-- {
			r = c.IIteT(leaves[k].cond, fr.i.toI(vs[k]), r)
		}
		return fr.i.ival(r, t), true
	case b.Info()&types.IsBoolean != 0:
		r := fr.i.toB(vs[len(vs)-1])
		for k := len(vs) - 2; k >= 0; k-- {
			r = c.BIte(leaves[k].cond, fr.i.toB(vs[k]), r)
		}
		return bval(r), true
	}
	return nil, false
}

func identical(a, b value) bool {
	switch x := a.(type) {
	case *term.R, *term.I, *term.B, *symC:
		return a == b
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, bool, float64, complex128, string:
		if f, ok := a.(float64); ok && f != f {
			return false
		}
		return a == b
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	}
	return false
}

func (fr *frame) mergeSide(b, prev *ssa.BasicBlock, cond *term.B, join *ssa.BasicBlock, out *[]leaf, depth int) {
	if b == join {
		*out = append(*out, leaf{cond: cond, pred: prev})
		if len(*out) > 12 {
			panic(mergeAbort{})
		}
		return
	}
	if depth > 8 || len(b.Preds) > 1 || len(b.Instrs) > 24 {
		panic(mergeAbort{})
	}
	i := fr.i
	for _, in := range b.Instrs {
		i.steps++
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			x, y := fr.get(in.X), fr.get(in.Y)
			switch in.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				if isSym(y) || isZeroNum(y) {
					panic(mergeAbort{})
				}
			case token.ADD, token.SUB, token.MUL, token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.AND, token.OR, token.XOR:
			default:
				panic(mergeAbort{})
			}
			if !scalar(x) || !scalar(y) {
				panic(mergeAbort{})
			}
			visitInstr(fr, in)
		case *ssa.UnOp:
			switch in.Op {
			case token.SUB, token.NOT:
				if !scalar(fr.get(in.X)) {
					panic(mergeAbort{})
				}
				visitInstr(fr, in)
			case token.MUL:
				p, ok := fr.get(in.X).(*value)
				if !ok || p == nil {
					panic(mergeAbort{})
				}
				visitInstr(fr, in)
			default:
				panic(mergeAbort{})
			}
		case *ssa.IndexAddr:
			k, ok := fr.get(in.Index).(int)
			if !ok {
				panic(mergeAbort{})
			}
			n := -1
			switch x := fr.get(in.X).(type) {
			case []value:
				n = len(x)
			case *value:
				if x != nil {
					if a, ok := (*x).(array); ok {
						n = len(a)
					}
				}
			}
			if k < 0 || k >= n {
				panic(mergeAbort{})
			}
			visitInstr(fr, in)
		case *ssa.FieldAddr:
			p, ok := fr.get(in.X).(*value)
			if !ok || p == nil {
				panic(mergeAbort{})
			}
			visitInstr(fr, in)
		case *ssa.Field:
			visitInstr(fr, in)
		case *ssa.Store:
			fr.guardedStore(in, cond)
		case *ssa.Alloc:
			if !in.Heap {
				panic(mergeAbort{})
			}
			visitInstr(fr, in)
			a := fr.get(in).(*value)
			fr.fresh[a] = true
			if arr, ok := (*a).(array); ok {
				for k := range arr {
					fr.fresh[&arr[k]] = true
				}
			}
		case *ssa.MakeInterface:
			visitInstr(fr, in)
		case *ssa.Slice:
			if p, ok := fr.get(in.X).(*value); !ok || !fr.fresh[p] {
				panic(mergeAbort{})
			}
			visitInstr(fr, in)
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "real", "imag", "len", "complex":
					visitInstr(fr, in)
					continue
				}
				panic(mergeAbort{})
			}
			fn := in.Call.StaticCallee()
			if fn == nil {
				panic(mergeAbort{})
			}
			switch name := fn.String(); {
			case quiet[name]:
			case name == "math.Abs" || name == "math.Max" || name == "math.Min":
				for _, x := range in.Call.Args {
					if _, ok := fr.i.toR(fr.get(x)); !ok {
						panic(mergeAbort{})
					}
				}
				visitInstr(fr, in)
			default:
				panic(mergeAbort{})
			}
		case *ssa.Jump:
			fr.mergeSide(b.Succs[0], b, cond, join, out, depth+1)
			return
		case *ssa.If:
			switch c := fr.get(in.Cond).(type) {
			case bool:
				k := 1
				if c {
					k = 0
				}
				fr.mergeSide(b.Succs[k], b, cond, join, out, depth+1)
			case *term.B:
				cc := i.p.C
				fr.mergeSide(b.Succs[0], b, cc.And(cond, c), join, out, depth+1)
				fr.mergeSide(b.Succs[1], b, cc.And(cond, cc.Not(c)), join, out, depth+1)
			default:
				panic(mergeAbort{})
			}
			return
		case *ssa.Return:
			if join != nil {
				panic(mergeAbort{})
			}
			var r []value
			for _, x := range in.Results {
				r = append(r, fr.get(x))
			}
			*out = append(*out, leaf{cond: cond, ret: r})
			if len(*out) > 12 {
				panic(mergeAbort{})
			}
			return
		default:
			panic(mergeAbort{})
		}
	}
	panic(mergeAbort{})
}

func scalar(v value) bool {
	switch v.(type) {
	case *term.R, *term.I, *term.B, *symC, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, bool, float64, complex128:
		return true
	}
	return false
}

func isZeroNum(v value) bool {
	switch v := v.(type) {
	case float64:
		return v == 0
	case complex128:
		return v == 0
	}
	return isZeroInt(v)
}
