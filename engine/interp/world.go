package interp

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"io"
	"strings"
)

// world is the modelled environment: standard output and an in-memory file
// system. Files hold bytes or symbolic tokens.
type world struct {
	i      *interpreter
	stdout []spart
	files  map[string]*vfile
	db     *dbWorld
}

type vfile struct {
	name string
	data []value
}

type vhandle struct {
	f      *vfile
	pos    int
	std    bool
	closed bool
}

func newWorld(i *interpreter) *world { return &world{i: i, files: map[string]*vfile{}} }

func (w *world) printed() value { return fromParts(w.stdout) }

func (i *interpreter) stdFile(name string) value { return &vhandle{std: true, f: &vfile{name: name}} }

func (pr *Program) methodByName(t types.Type, name string) value {
	ms := types.NewMethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if f, ok := ms.At(k).Obj().(*types.Func); ok && f.Name() == name {
			if fn := pr.lookupMethod(t, f); fn != nil {
				return fn
			}
		}
	}
	return nil
}

func fname(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case *symStr:
		// file names built from symbolic pieces: identity by structure
		var sb strings.Builder
		for _, p := range v.parts {
			if p.tok != nil {
				fmt.Fprintf(&sb, "<%s:%s:%s>", p.tok.kind, p.tok.verb, toString(p.tok.v))
				panic(unsupported("symbolic file name"))
			}
			sb.WriteString(p.lit)
		}
		return sb.String()
	}
	panic(unsupported("file name"))
}

func (w *world) notExist(name string) value {
	return w.i.newError("open " + name + ": no such file or directory")
}

func h(v value) *vhandle {
	x, ok := v.(*vhandle)
	if !ok {
		if p, isP := v.(*value); isP && p == nil {
			panic(targetPanic{"runtime error: nil *os.File"})
		}
		panic(unsupported("file handle"))
	}
	return x
}

func (fr *frame) write(f *vhandle, d []value) value {
	if f.closed {
		return tuple{0, fr.i.newError("write: file already closed")}
	}
	if f.std {
		if f.f.name == "Stdout" {
			fr.i.world.stdout = append(fr.i.world.stdout, toParts(fr.i.bytesToString(d))...)
		}
		return tuple{len(d), nilErr()}
	}
	if f.pos > len(f.f.data) {
		panic(unsupported("sparse write"))
	}
	nd := append([]value(nil), f.f.data[:f.pos]...)
	nd = append(nd, d...)
	if f.pos+len(d) < len(f.f.data) {
		nd = append(nd, f.f.data[f.pos+len(d):]...)
	}
	f.f.data = nd
	f.pos += len(d)
	return tuple{len(d), nilErr()}
}

func (i *interpreter) eof() value { return *i.global(i.prog.ByPath["io"].Var("EOF")) }

func init() {
	create := func(fr *frame, name string) value {
		f := fr.i.world.files[name]
		if f == nil {
			f = &vfile{name: name}
			fr.i.world.files[name] = f
		}
		f.data = nil
		return &vhandle{f: f}
	}
	reg("os.Create", func(fr *frame, a []value) value { return tuple{create(fr, fname(a[0])), nilErr()} })
	open := func(fr *frame, a []value) value {
		n := fname(a[0])
		f := fr.i.world.files[n]
		if f == nil {
			return tuple{(*value)(nil), fr.i.world.notExist(n)}
		}
		return tuple{&vhandle{f: f}, nilErr()}
	}
	reg("os.Open", open)
	reg("os.OpenFile", func(fr *frame, a []value) value {
		n := fname(a[0])
		fl := int(asInt64(a[1]))
		f := fr.i.world.files[n]
		if f == nil {
			if fl&0x40 == 0 {
				return tuple{(*value)(nil), fr.i.world.notExist(n)}
			}
			return tuple{create(fr, n), nilErr()}
		}
		hd := &vhandle{f: f}
		if fl&0x200 != 0 {
			f.data = nil
		}
		if fl&0x400 != 0 {
			hd.pos = len(f.data)
		}
		return tuple{hd, nilErr()}
	})
	reg("os.Remove", func(fr *frame, a []value) value {
		n := fname(a[0])
		if fr.i.world.files[n] == nil {
			return fr.i.world.notExist(n)
		}
		delete(fr.i.world.files, n)
		return nilErr()
	})
	reg("os.Rename", func(fr *frame, a []value) value {
		n := fname(a[0])
		f := fr.i.world.files[n]
		if f == nil {
			return fr.i.world.notExist(n)
		}
		delete(fr.i.world.files, n)
		fr.i.world.files[fname(a[1])] = f
		return nilErr()
	})
	reg("os.MkdirAll", func(fr *frame, a []value) value { return nilErr() })
	reg("os.Stat", func(fr *frame, a []value) value {
		n := fname(a[0])
		f := fr.i.world.files[n]
		if f == nil {
			return tuple{iface{}, fr.i.world.notExist(n)}
		}
		return tuple{iface{t: fr.i.prog.ptrTo("os", "fileStat"), v: &native{f}}, nilErr()}
	})
	reg("(*os.File).Stat", func(fr *frame, a []value) value {
		return tuple{iface{t: fr.i.prog.ptrTo("os", "fileStat"), v: &native{h(a[0]).f}}, nilErr()}
	})
	reg("(*os.fileStat).Size", func(fr *frame, a []value) value { return int64(len(a[0].(*native).v.(*vfile).data)) })
	reg("os.IsNotExist", func(fr *frame, a []value) value {
		x := a[0].(iface)
		return x.t != nil && strings.Contains(toString(*x.v.(*value)), "no such file")
	})
	reg("(*os.File).Close", func(fr *frame, a []value) value {
		if p, ok := a[0].(*value); ok && p == nil {
			return fr.i.newError("invalid argument")
		}
		h(a[0]).closed = true
		return nilErr()
	})
	reg("(*os.File).Sync", func(fr *frame, a []value) value { return nilErr() })
	reg("(*os.File).Name", func(fr *frame, a []value) value { return h(a[0]).f.name })
	reg("(*os.File).WriteString", func(fr *frame, a []value) value { return fr.write(h(a[0]), fr.i.toBytes(a[1])) })
	reg("(*os.File).Write", func(fr *frame, a []value) value { return fr.write(h(a[0]), append([]value(nil), sl(a[1])...)) })
	reg("(*os.File).Seek", func(fr *frame, a []value) value {
		f := h(a[0])
		off := asInt64(a[1])
		switch asInt64(a[2]) {
		case 1:
			off += int64(f.pos)
		case 2:
			off += int64(len(f.f.data))
		}
		f.pos = int(off)
		return tuple{off, nilErr()}
	})
	reg("(*os.File).Read", func(fr *frame, a []value) value {
		f := h(a[0])
		b := sl(a[1])
		if f.pos >= len(f.f.data) {
			if len(b) == 0 {
				return tuple{0, nilErr()}
			}
			return tuple{0, fr.i.eof()}
		}
		n := copy(b, f.f.data[f.pos:])
		f.pos += n
		return tuple{n, nilErr()}
	})
	readAll := func(fr *frame, a []value) value {
		x := a[0].(iface)
		if f, ok := x.v.(*vhandle); ok {
			d := append([]value{}, f.f.data[f.pos:]...)
			f.pos = len(f.f.data)
			return tuple{d, nilErr()}
		}
		panic(unsupported("ReadAll of " + x.t.String()))
	}
	reg("io/ioutil.ReadAll", readAll)
	reg("io.ReadAll", readAll)
	readFile := func(fr *frame, a []value) value {
		n := fname(a[0])
		f := fr.i.world.files[n]
		if f == nil {
			return tuple{[]value(nil), fr.i.world.notExist(n)}
		}
		return tuple{append([]value{}, f.data...), nilErr()}
	}
	reg("io/ioutil.ReadFile", readFile)
	reg("os.ReadFile", readFile)
	writeFile := func(fr *frame, a []value) value {
		f := create(fr, fname(a[0])).(*vhandle)
		f.f.data = append([]value(nil), sl(a[1])...)
		return nilErr()
	}
	reg("io/ioutil.WriteFile", writeFile)
	reg("os.WriteFile", writeFile)

	// encoding/binary of float64 words: each word is eight byte tokens
	big := func(order value) bool {
		x, ok := order.(iface)
		if !ok {
			panic(unsupported("byte order"))
		}
		return strings.Contains(x.t.String(), "big")
	}
	reg("encoding/binary.Write", func(fr *frame, a []value) value {
		d := a[2].(iface)
		return fr.binErr(fr.i.writeBytes(fr, a[0], fr.i.encodeBin(d.v, d.t, big(a[1]))))
	})
	reg("encoding/binary.Read", func(fr *frame, a []value) value {
		d := a[2].(iface)
		return fr.i.readBin(fr, a[0], d, big(a[1]))
	})
	reg("encoding/binary.Size", func(fr *frame, a []value) value {
		d := a[0].(iface)
		return len(fr.i.encodeBin(d.v, d.t, true))
	})
	put := func(bigE bool) extFn {
		return func(fr *frame, a []value) value {
			b := sl(a[1])
			if len(b) < 8 {
				panic(targetPanic{"runtime error: index out of range"})
			}
			copy(b, fr.i.word(a[2], bigE))
			return nil
		}
	}
	get := func(bigE bool) extFn {
		return func(fr *frame, a []value) value {
			b := sl(a[1])
			if len(b) < 8 {
				panic(targetPanic{"runtime error: index out of range"})
			}
			return fr.i.unword(b[:8], bigE)
		}
	}
	reg("(encoding/binary.bigEndian).PutUint64", put(true))
	reg("(encoding/binary.littleEndian).PutUint64", put(false))
	reg("(encoding/binary.bigEndian).Uint64", get(true))
	reg("(encoding/binary.littleEndian).Uint64", get(false))
}

func (fr *frame) binErr(v value) value {
	if t, ok := v.(tuple); ok {
		return t[1]
	}
	return nilErr()
}

func (i *interpreter) writeBytes(fr *frame, w value, d []value) value {
	x := w.(iface)
	if x.t == nil {
		i.nilDeref()
	}
	return call(i, fr, 0, i.prog.methodByName(x.t, "Write"), []value{x.v, d})
}

// word encodes a 64-bit word.
func (i *interpreter) word(v value, bigE bool) []value {
	out := make([]value, 8)
	if u, ok := v.(uint64); ok {
		var b [8]byte
		if bigE {
			binary.BigEndian.PutUint64(b[:], u)
		} else {
			binary.LittleEndian.PutUint64(b[:], u)
		}
		for k := range out {
			out[k] = b[k]
		}
		return out
	}
	fb, ok := v.(*fbits)
	if !ok {
		panic(unsupported("encoding of a symbolic integer"))
	}
	for k := range out {
		s := k // significance: 0 = most significant
		if !bigE {
			s = 7 - k
		}
		out[k] = &stok{kind: "byte", verb: "f64", v: fb.v, k: s}
	}
	return out
}

func (i *interpreter) unword(b []value, bigE bool) value {
	if t, ok := b[0].(*stok); ok {
		for k := range b {
			x, ok := b[k].(*stok)
			s := k
			if !bigE {
				s = 7 - k
			}
			if !ok || x.kind != "byte" || x.k != s || x.v != t.v {
				panic(unsupported("mixed symbolic bytes"))
			}
		}
		return &fbits{t.v}
	}
	var raw [8]byte
	for k := range b {
		c, ok := b[k].(byte)
		if !ok {
			panic(unsupported("mixed symbolic bytes"))
		}
		raw[k] = c
	}
	if bigE {
		return binary.BigEndian.Uint64(raw[:])
	}
	return binary.LittleEndian.Uint64(raw[:])
}

func (i *interpreter) encodeBin(v value, t types.Type, bigE bool) []value {
	switch x := v.(type) {
	case []value:
		if len(x) > 0 {
			if _, ok := x[0].(byte); ok {
				return append([]value(nil), x...)
			}
		}
		if t != nil {
			if st, ok := t.Underlying().(*types.Slice); ok {
				if b, ok := st.Elem().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8) {
					return append([]value(nil), x...)
				}
			}
		}
		var out []value
		for _, e := range x {
			out = append(out, i.encodeBin(e, nil, bigE)...)
		}
		return out
	case *value:
		return i.encodeBin(*x, nil, bigE)
	case structure:
		var out []value
		for _, e := range x {
			out = append(out, i.encodeBin(e, nil, bigE)...)
		}
		return out
	case array:
		return i.encodeBin([]value(x), nil, bigE)
	case complex128, *symC:
		z, _ := i.toC(x)
		return append(i.encodeBin(i.rval(z.re), nil, bigE), i.encodeBin(i.rval(z.im), nil, bigE)...)
	}
	bits := externals["math.Float64bits"]
	switch v.(type) {
	case byte, int8, bool:
		return []value{v}
	case uint32, int32, uint16, int16:
		var w uint64
		n := 4
		switch u := v.(type) {
		case uint32:
			w = uint64(u)
		case int32:
			w = uint64(uint32(u))
		case uint16:
			w, n = uint64(u), 2
		case int16:
			w, n = uint64(uint16(u)), 2
		}
		out := make([]value, n)
		for k := range out {
			sh := uint(8 * k)
			if bigE {
				sh = uint(8 * (n - 1 - k))
			}
			out[k] = byte(w >> sh)
		}
		return out
	case uint64:
		return i.word(v, bigE)
	case int64:
		return i.word(uint64(v.(int64)), bigE)
	}
	if !isFloatV(v) {
		panic(unsupported(fmt.Sprintf("binary encoding of %T", v)))
	}
	return i.word(bits(nil, []value{v}), bigE)
}

func isFloatV(v value) bool {
	if _, ok := v.(float64); ok {
		return true
	}
	return isSym(v)
}

func (i *interpreter) readBin(fr *frame, r value, d iface, bigE bool) value {
	x := r.(iface)
	read := func(n int) ([]value, value) {
		buf := make([]value, n)
		for k := range buf {
			buf[k] = byte(0)
		}
		got := 0
		m := i.prog.methodByName(x.t, "Read")
		for got < n {
			t := call(i, fr, 0, m, []value{x.v, buf[got:]}).(tuple)
			got += int(asInt64(t[0]))
			if e := t[1].(iface); e.t != nil {
				if got == 0 {
					return nil, t[1]
				}
				if got < n {
					return nil, *i.global(i.prog.ByPath["io"].Var("ErrUnexpectedEOF"))
				}
			}
		}
		return buf, nil
	}
	frombits := externals["math.Float64frombits"]
	switch dst := d.v.(type) {
	case *value:
		switch (*dst).(type) {
		case float64:
			b, err := read(8)
			if err != nil {
				return err
			}
			*dst = frombits(nil, []value{i.unword(b, bigE)})
			return nilErr()
		}
		if isSym(*dst) {
			b, err := read(8)
			if err != nil {
				return err
			}
			*dst = frombits(nil, []value{i.unword(b, bigE)})
			return nilErr()
		}
	case []value:
		b, err := read(8 * len(dst))
		if err != nil {
			return err
		}
		for k := range dst {
			dst[k] = frombits(nil, []value{i.unword(b[8*k:8*k+8], bigE)})
		}
		return nilErr()
	}
	panic(unsupported(fmt.Sprintf("binary.Read into %T", d.v)))
}

var _ = io.EOF
