package interp

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"verif/engine/term"
)

// omap is an insertion-ordered map, so that re-execution is deterministic.
type omap struct {
	kt    types.Type
	ents  []*oent
	idx   map[any]*oent
	nsym  int
	count int
}

type oent struct {
	k, v value
	del  bool
	sym  bool
}

func makeMap(kt types.Type) *omap { return &omap{kt: kt, idx: map[any]*oent{}} }

type strKey string

// ckey returns a Go-comparable key for a concrete value, or false.
func ckey(v value) (any, bool) {
	switch v := v.(type) {
	case *term.I, *term.R, *term.B, *symC, *symStr:
		return nil, false
	case iface:
		if v.t == nil {
			return strKey("nil"), true
		}
		k, ok := ckey(v.v)
		if !ok {
			return nil, false
		}
		return strKey(fmt.Sprintf("I:%s:%T:%v", types.TypeString(v.t, nil), k, k)), true
	case structure:
		var sb strings.Builder
		for _, f := range v {
			k, ok := ckey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%q;", k, fmt.Sprint(k))
		}
		return strKey("S:" + sb.String()), true
	case array:
		k, ok := ckey(structure(v))
		return k, ok
	case rtype:
		return strKey("T:" + v.t.String()), true
	case []value, *omap:
		panic(targetPanic{"runtime error: hash of unhashable type"})
	}
	return v, true
}

func (i *interpreter) mapFind(m *omap, k value) *oent {
	if m == nil {
		return nil
	}
	ck, ok := ckey(k)
	if ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.del || ok && !e.sym {
			continue
		}
		if i.p.Decide(i.eqTerm(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (i *interpreter) mapSet(m *omap, k, v value) {
	if m == nil {
		panic(targetPanic{"assignment to entry in nil map"})
	}
	if e := i.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	ck, ok := ckey(k)
	e := &oent{k: k, v: v, sym: !ok}
	if ok {
		m.idx[ck] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.count++
}

func (i *interpreter) mapDelete(m *omap, k value) {
	e := i.mapFind(m, k)
	if e == nil {
		return
	}
	e.del = true
	m.count--
	if ck, ok := ckey(e.k); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	// compact
	var n []*oent
	for _, x := range m.ents {
		if !x.del {
			n = append(n, x)
		}
	}
	m.ents = n
}

type omapIter struct {
	ents []*oent
	pos  int
}

func (it *omapIter) next() tuple {
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.del {
			continue
		}
		return tuple{true, e.k, e.v}
	}
	return tuple{false, nil, nil}
}

// Map iteration order is unspecified in Go. The order explored is chosen per
// path: insertion order, reverse insertion order, sorted or reverse sorted.
func (i *interpreter) rangeMap(m *omap) iter {
	it := &omapIter{}
	if m == nil {
		return it
	}
	it.ents = append([]*oent(nil), m.ents...)
	switch i.p.MapOrder {
	case 1:
		for a, b := 0, len(it.ents)-1; a < b; a, b = a+1, b-1 {
			it.ents[a], it.ents[b] = it.ents[b], it.ents[a]
		}
	case 2, 3:
		rev := i.p.MapOrder == 3
		sort.SliceStable(it.ents, func(a, b int) bool {
			x, y := fmt.Sprint(it.ents[a].k), fmt.Sprint(it.ents[b].k)
			if rev {
				return y < x
			}
			return x < y
		})
	}
	return it
}
