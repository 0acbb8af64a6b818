// Package interp executes go/ssa code symbolically. It is derived from
// golang.org/x/tools/go/ssa/interp (BSD licence, The Go Authors); values may be
// symbolic terms, branches on symbolic conditions fork the path.
package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

type continuation int

const (
	kNext continuation = iota
	kReturn
	kJump
)

// unsupported ends a path because the encoder cannot represent something.
type unsupported string

// pathEnd ends a path (infeasible assumption, limits).
type pathEnd struct{ kind, msg string }

// exitPanic is os.Exit / log.Fatal in the program under test.
type exitPanic struct {
	code int
	msg  string
}

type interpreter struct {
	prog    *Program
	p       *Path
	globals map[*ssa.Global]*value
	steps   int64
	depth   int
	initing map[*ssa.Package]bool
	rterr   types.Type
	world   *world
}

type deferred struct {
	fn    value
	args  []value
	instr *ssa.Defer
	tail  *deferred
}

type frame struct {
	i                *interpreter
	caller           *frame
	fn               *ssa.Function
	block, prevBlock *ssa.BasicBlock
	env              []value
	info             *fnInfo
	locals           []value
	defers           *deferred
	result           value
	panicking        bool
	panic            any
	phitemps         []value
	cur              ssa.Instruction
	skipPhis         bool
	undo             []storeUndo
	fresh            map[*value]bool
}

// fnInfo numbers the registers of a function.
type fnInfo struct {
	idx map[ssa.Value]int
	n   int
	// operand slots per instruction are resolved through idx
	pdomOnce sync.Once
	pdom     map[*ssa.BasicBlock]*ssa.BasicBlock
}

func (pr *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := pr.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		if _, ok := fi.idx[v]; !ok {
			fi.idx[v] = fi.n
			fi.n++
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, l := range fn.Locals {
		add(l)
	}
	pr.infos.Store(fn, fi)
	return fi
}

func (fr *frame) set(k ssa.Value, v value) { fr.env[fr.info.idx[k]] = v }

func (fr *frame) get(key ssa.Value) value {
	switch key := key.(type) {
	case nil:
		return nil
	case *ssa.Function, *ssa.Builtin:
		return key
	case *ssa.Const:
		return fr.i.prog.constant(key)
	case *ssa.Global:
		return fr.i.global(key)
	}
	if k, ok := fr.info.idx[key]; ok {
		return fr.env[k]
	}
	panic(unsupported(fmt.Sprintf("get: no value for %T: %v", key, key.Name())))
}

func (i *interpreter) global(g *ssa.Global) *value {
	if r, ok := i.globals[g]; ok {
		return r
	}
	cell := zero(mustDeref(g.Type()))
	i.globals[g] = &cell
	i.initGlobal(g, &cell)
	return &cell
}

// initGlobal gives package variables of packages whose initialiser is not
// executed a usable value (sentinel errors and the like).
func (i *interpreter) initGlobal(g *ssa.Global, cell *value) {
	if g.Pkg == nil || i.prog.runsInit(g.Pkg) {
		return
	}
	t := mustDeref(g.Type())
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		*cell = i.newError(g.Pkg.Pkg.Name() + "." + g.Name())
		return
	}
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "os.Stdout", "os.Stderr", "os.Stdin":
		*cell = i.stdFile(g.Name())
	case "os.Args":
		*cell = []value{"verif"}
	}
}

func (fr *frame) runDefer(d *deferred) {
	var ok bool
	defer func() {
		if !ok {
			r := recover()
			if !isTarget(r) {
				panic(r)
			}
			fr.panicking = true
			fr.panic = r
		}
	}()
	call(fr.i, fr, d.instr.Pos(), d.fn, d.args)
	ok = true
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = d.tail {
		fr.runDefer(d)
	}
	fr.defers = nil
	if fr.panicking {
		panic(fr.panic)
	}
}

func isTarget(r any) bool {
	_, ok := r.(targetPanic)
	return ok
}

func (i *interpreter) nilDeref() {
	panic(targetPanic{"runtime error: invalid memory address or nil pointer dereference"})
}

func (fr *frame) addr(v value) *value {
	a, ok := v.(*value)
	if !ok {
		panic(unsupported(fmt.Sprintf("pointer of kind %T", v)))
	}
	if a == nil {
		fr.i.nilDeref()
	}
	return a
}

func visitInstr(fr *frame, instr ssa.Instruction) continuation {
	i := fr.i
	switch instr := instr.(type) {
	case *ssa.DebugRef:

	case *ssa.UnOp:
		fr.set(instr, i.unop(fr, instr, fr.get(instr.X)))

	case *ssa.BinOp:
		x, y := fr.get(instr.X), fr.get(instr.Y)
		if r, ok := fr.blasZeroTest(instr, x, y); ok {
			fr.set(instr, r)
		} else {
			fr.set(instr, i.binop(instr.Op, instr.X.Type(), x, y))
		}

	case *ssa.Call:
		if fr.fn.Synthetic == "package initializer" && !strings.HasPrefix(fr.fn.Pkg.Pkg.Path(), "github.com/davidkleiven/gopf") {
			fr.set(instr, fr.tolerantCall(instr))
		} else {
			fn, args := prepareCall(fr, &instr.Call)
			fr.set(instr, call(i, fr, instr.Pos(), fn, args))
		}

	case *ssa.ChangeInterface:
		fr.set(instr, fr.get(instr.X))

	case *ssa.ChangeType:
		fr.set(instr, fr.get(instr.X))

	case *ssa.Convert:
		fr.set(instr, i.conv(instr.Type(), instr.X.Type(), fr.get(instr.X)))

	case *ssa.MultiConvert:
		fr.set(instr, i.conv(instr.Type(), instr.X.Type(), fr.get(instr.X)))

	case *ssa.SliceToArrayPointer:
		x := fr.get(instr.X).([]value)
		n := mustDeref(instr.Type()).Underlying().(*types.Array).Len()
		if int64(len(x)) < n {
			panic(targetPanic{"runtime error: cannot convert slice to array pointer"})
		}
		v := value(array(x[:n:n]))
		fr.set(instr, &v)

	case *ssa.MakeInterface:
		fr.set(instr, iface{t: instr.X.Type(), v: fr.get(instr.X)})

	case *ssa.Extract:
		fr.set(instr, fr.get(instr.Tuple).(tuple)[instr.Index])

	case *ssa.Slice:
		if x, ok := fr.get(instr.X).(*symStr); ok && instr.High != nil && fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Path() == "encoding/csv" {
			// positions there come from the bytes, where an unknown text counts as one
			lo := int64(0)
			if instr.Low != nil {
				lo = i.concInt(fr.get(instr.Low))
			}
			b := i.toBytes(x)
			fr.set(instr, i.bytesToString(b[lo:i.concInt(fr.get(instr.High))]))
			break
		}
		fr.set(instr, i.slice(fr.get(instr.X), fr.get(instr.Low), fr.get(instr.High), fr.get(instr.Max)))

	case *ssa.Return:
		switch len(instr.Results) {
		case 0:
		case 1:
			fr.result = fr.get(instr.Results[0])
		default:
			var res []value
			for _, r := range instr.Results {
				res = append(res, fr.get(r))
			}
			fr.result = tuple(res)
		}
		fr.block = nil
		return kReturn

	case *ssa.RunDefers:
		fr.runDefers()

	case *ssa.Panic:
		panic(targetPanic{fr.get(instr.X)})

	case *ssa.Store:
		store(mustDeref(instr.Addr.Type()), fr.addr(fr.get(instr.Addr)), fr.get(instr.Val))

	case *ssa.If:
		succ := 1
		if c, ok := fr.get(instr.Cond).(*term.B); ok && fr.tryMerge(c) {
			if fr.block == nil {
				return kReturn
			}
			return kJump
		}
		if i.decide(fr.get(instr.Cond)) {
			succ = 0
		}
		fr.prevBlock, fr.block = fr.block, fr.block.Succs[succ]
		return kJump

	case *ssa.Jump:
		fr.prevBlock, fr.block = fr.block, fr.block.Succs[0]
		return kJump

	case *ssa.Defer:
		fn, args := prepareCall(fr, &instr.Call)
		defers := &fr.defers
		if into := fr.get(instr.DeferStack); into != nil {
			defers = into.(**deferred)
		}
		*defers = &deferred{fn: fn, args: args, instr: instr, tail: *defers}

	case *ssa.Go:
		// Goroutines run to completion at the go statement (one schedule).
		fn, args := prepareCall(fr, &instr.Call)
		call(i, nil, instr.Pos(), fn, args)

	case *ssa.Alloc:
		var a *value
		if instr.Heap {
			a = new(value)
			fr.set(instr, a)
		} else {
			a = fr.env[fr.info.idx[instr]].(*value)
		}
		*a = zero(mustDeref(instr.Type()))

	case *ssa.MakeSlice:
		n, c := i.concInt(fr.get(instr.Len)), i.concInt(fr.get(instr.Cap))
		if n < 0 || c < n {
			panic(targetPanic{"runtime error: makeslice: len out of range"})
		}
		if c > 50_000_000 {
			panic(pathEnd{"limit", "slice too large"})
		}
		s := make([]value, c)
		tElt := instr.Type().Underlying().(*types.Slice).Elem()
		for k := range s {
			s[k] = zero(tElt)
		}
		fr.set(instr, s[:n])

	case *ssa.MakeMap:
		fr.set(instr, makeMap(instr.Type().Underlying().(*types.Map).Key()))

	case *ssa.Range:
		switch x := fr.get(instr.X).(type) {
		case *omap:
			fr.set(instr, iter(i.rangeMap(x)))
		case string:
			fr.set(instr, iter(&stringIter{Reader: strings.NewReader(x)}))
		default:
			panic(unsupported(fmt.Sprintf("range over %T", x)))
		}

	case *ssa.Next:
		fr.set(instr, fr.get(instr.Iter).(iter).next())

	case *ssa.FieldAddr:
		a := fr.addr(fr.get(instr.X))
		st, ok := (*a).(structure)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of opaque %T in %s", *a, fr.fn)))
		}
		fr.set(instr, &st[instr.Field])

	case *ssa.Field:
		st, ok := fr.get(instr.X).(structure)
		if !ok {
			panic(unsupported("field of opaque value"))
		}
		fr.set(instr, st[instr.Field])

	case *ssa.IndexAddr:
		x := fr.get(instr.X)
		idx := fr.get(instr.Index)
		switch x := x.(type) {
		case []value:
			fr.set(instr, &x[i.index(idx, len(x))])
		case *value:
			if x == nil {
				i.nilDeref()
			}
			a := (*x).(array)
			fr.set(instr, &a[i.index(idx, len(a))])
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr of %T", x)))
		}

	case *ssa.Index:
		x := fr.get(instr.X)
		idx := fr.get(instr.Index)
		switch x := x.(type) {
		case array:
			fr.set(instr, x[i.index(idx, len(x))])
		case string:
			fr.set(instr, x[i.index(idx, len(x))])
		case *symStr:
			fr.set(instr, i.symStrIndex(x, idx))
		default:
			panic(unsupported(fmt.Sprintf("Index of %T", x)))
		}

	case *ssa.Lookup:
		switch x := fr.get(instr.X).(type) {
		case *omap:
			e := i.mapFind(x, fr.get(instr.Index))
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(instr.X.Type().Underlying().(*types.Map).Elem())
			}
			if instr.CommaOk {
				v = tuple{v, e != nil}
			}
			fr.set(instr, v)
		case string:
			fr.set(instr, x[i.index(fr.get(instr.Index), len(x))])
		default:
			panic(unsupported(fmt.Sprintf("Lookup in %T", x)))
		}

	case *ssa.MapUpdate:
		m, ok := fr.get(instr.Map).(*omap)
		if !ok {
			panic(unsupported("map update of opaque map"))
		}
		i.mapSet(m, fr.get(instr.Key), copyVal(fr.get(instr.Value)))

	case *ssa.TypeAssert:
		itf, ok := fr.get(instr.X).(iface)
		if !ok {
			panic(unsupported("type assertion on opaque interface"))
		}
		fr.set(instr, i.typeAssert(instr, itf))

	case *ssa.MakeClosure:
		var bindings []value
		for _, b := range instr.Bindings {
			bindings = append(bindings, fr.get(b))
		}
		fr.set(instr, &closure{instr.Fn.(*ssa.Function), bindings})

	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		panic(unsupported(fmt.Sprintf("channel operation in %s", fr.fn)))

	default:
		panic(unsupported(fmt.Sprintf("instruction %T", instr)))
	}
	return kNext
}

func (i *interpreter) index(idx value, n int) int {
	if t, ok := idx.(*term.I); ok {
		in := i.p.C.And(i.p.C.ILeT(i.p.C.IConstV(0), t), i.p.C.ILtT(t, i.p.C.IConstV(int64(n))))
		if !i.p.Decide(in) {
			panic(targetPanic{fmt.Sprintf("runtime error: index out of range with length %d", n)})
		}
		return int(i.p.Concretize(t))
	}
	k := asInt64(idx)
	if u, ok := idx.(uint64); ok && u > 1<<62 {
		k = -1
	}
	if k < 0 || k >= int64(n) {
		panic(targetPanic{fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, n)})
	}
	return int(k)
}

func prepareCall(fr *frame, cc *ssa.CallCommon) (fn value, args []value) {
	v := fr.get(cc.Value)
	if cc.Method == nil {
		fn = v
	} else {
		recv, ok := v.(iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", v)))
		}
		if recv.t == nil {
			fr.i.nilDeref()
		}
		f := fr.i.prog.lookupMethod(recv.t, cc.Method)
		if f == nil {
			panic(unsupported(fmt.Sprintf("no method %s for %v", cc.Method, recv.t)))
		}
		fn = f
		args = append(args, recv.v)
	}
	for _, arg := range cc.Args {
		args = append(args, fr.get(arg))
	}
	return
}

func call(i *interpreter, caller *frame, callpos token.Pos, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			i.nilDeref()
		}
		return callSSA(i, caller, callpos, fn, args, nil)
	case *closure:
		return callSSA(i, caller, callpos, fn.Fn, args, fn.Env)
	case *ssa.Builtin:
		return i.callBuiltin(caller, fn, args)
	case nativeFn:
		return fn(caller, args)
	}
	panic(unsupported(fmt.Sprintf("cannot call %T", fn)))
}

// tolerantCall runs a call of a dependency's initialiser; a variable whose
// initialiser cannot be encoded keeps its zero value, which is recorded.
func (fr *frame) tolerantCall(instr *ssa.Call) (res value) {
	d := fr.i.depth
	defer func() {
		if r := recover(); r != nil {
			u, isU := r.(unsupported)
			_, isP := r.(targetPanic)
			if isU || isP {
				fr.i.depth = d
				fr.i.p.panicTrace = nil
				fr.i.p.Assumed["initialiser of "+fr.fn.Pkg.Pkg.Path()+" only partly executed: "+string(u)] = true
				if t, ok := instr.Type().(*types.Tuple); ok && t.Len() == 0 {
					res = nil
				} else {
					res = zero(instr.Type())
				}
				return
			}
			panic(r)
		}
	}()
	fn, args := prepareCall(fr, &instr.Call)
	return call(fr.i, fr, instr.Pos(), fn, args)
}

// nativeFn is an engine-provided function value.
type nativeFn func(fr *frame, args []value) value

func callSSA(i *interpreter, caller *frame, callpos token.Pos, fn *ssa.Function, args []value, env []value) value {
	fr := &frame{i: i, caller: caller, fn: fn}
	if fn.Parent() == nil {
		if fn.Synthetic == "package initializer" {
			if !i.prog.runsInit(fn.Pkg) {
				return nil
			}
			if !strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/davidkleiven/gopf") {
				// variables of dependencies whose initialiser cannot be encoded keep their zero value
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsupported); ok {
							i.p.Assumed["initialiser of "+fn.Pkg.Pkg.Path()+" only partly executed: "+string(u)] = true
							return
						}
						panic(r)
					}
				}()
			}
		}
		if ext := i.prog.external(fn); ext != nil {
			i.p.noteExternal(fn)
			return ext(fr, args)
		}
		if r := i.prog.redirect(fn); r != nil && (caller == nil || caller.fn != r) {
			i.p.noteExternal(fn)
			return callSSA(i, caller, callpos, r, args, nil)
		}
		i.prog.build(fn)
		if fn.Blocks == nil {
			panic(unsupported("no code for function: " + fn.String()))
		}
		if !i.prog.interpretable(fn) {
			panic(unsupported("function outside the encoded set: " + fn.String()))
		}
	}
	if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
		panic(unsupported("uninstantiated generic " + fn.String()))
	}
	i.p.noteFunc(fn)
	i.depth++
	if i.depth > 400 {
		panic(pathEnd{"limit", "call depth"})
	}
	fr.info = i.prog.info(fn)
	fr.env = make([]value, fr.info.n)
	fr.block = fn.Blocks[0]
	fr.locals = make([]value, len(fn.Locals))
	for k, l := range fn.Locals {
		fr.locals[k] = zero(mustDeref(l.Type()))
		fr.set(l, &fr.locals[k])
	}
	for k, p := range fn.Params {
		fr.set(p, args[k])
	}
	for k, fv := range fn.FreeVars {
		fr.set(fv, env[k])
	}
	for fr.block != nil {
		runFrame(fr)
	}
	i.depth--
	return fr.result
}

func runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if !isTarget(r) {
			if e, ok := r.(error); ok && fr.i.p.errTrace == "" {
				fr.i.p.errTrace = fmt.Sprintf("%v in %s at %s (%v)", e, fr.fn, fr.i.prog.pos(fr.cur), fr.cur)
			}
			panic(r)
		}
		if fr.i.p.panicTrace == nil {
			fr.i.p.panicTrace = append(fr.i.p.panicTrace, fmt.Sprintf("%s at %s", fr.fn, fr.i.prog.pos(fr.cur)))
		}
		d := fr.i.depth
		fr.panicking = true
		fr.panic = r
		fr.runDefers()
		fr.i.depth = d
		fr.i.p.panicTrace = nil
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// no named results: recovered panic returns zero values
			res := fr.fn.Signature.Results()
			if res.Len() == 1 {
				fr.result = zero(res.At(0).Type())
			} else if res.Len() > 1 {
				fr.result = zero(res)
			}
		}
	}()
	for {
		nonPhis := executePhis(fr)
		for _, instr := range nonPhis {
			fr.cur = instr
			fr.i.steps++
			if fr.i.steps&0xfff == 0 {
				fr.i.p.tick(fr.i.steps)
			}
			if visitInstr(fr, instr) == kReturn {
				return
			}
		}
	}
}

func executePhis(fr *frame) []ssa.Instruction {
	firstNonPhi := -1
	for i, instr := range fr.block.Instrs {
		if _, ok := instr.(*ssa.Phi); !ok {
			firstNonPhi = i
			break
		}
	}
	nonPhis := fr.block.Instrs[firstNonPhi:]
	if fr.skipPhis {
		fr.skipPhis = false
		return nonPhis
	}
	if firstNonPhi > 0 {
		phis := fr.block.Instrs[:firstNonPhi]
		predIndex := slices.Index(fr.block.Preds, fr.prevBlock)
		fr.phitemps = fr.phitemps[:0]
		for _, phi := range phis {
			fr.phitemps = append(fr.phitemps, fr.get(phi.(*ssa.Phi).Edges[predIndex]))
		}
		for i, phi := range phis {
			fr.set(phi.(*ssa.Phi), fr.phitemps[i])
		}
	}
	return nonPhis
}

func doRecover(caller *frame) value {
	if caller != nil && !caller.panicking && caller.caller != nil && caller.caller.panicking {
		p, ok := caller.caller.panic.(targetPanic)
		if !ok {
			return iface{}
		}
		caller.caller.panicking = false
		caller.caller.panic = nil
		if s, ok := p.v.(string); ok {
			return caller.i.newError(s)
		}
		return p.v
	}
	return iface{}
}
