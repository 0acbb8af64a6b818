package p03

import (
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sym"
)

func HProduct() {
	sym.Bound("product iterator: one to four indices, limits 1..4 each (1..3 for four), every combination")
	n := 1 + sym.Choose("rank", 4)
	max := 4
	if n == 4 {
		max = 3
	}
	end := make([]int, n)
	total := 1
	for k := range end {
		end[k] = sym.Int("end", 1, max)
		total *= end[k]
	}
	p := pfutil.NewProduct(end)
	cnt := 0
	prev := make([]int, n)
	for x := p.Next(); x != nil; x = p.Next() {
		sym.EqInt("rank", len(x), n)
		code, pc := 0, 0
		for k := range x {
			sym.Assert("below", x[k] >= 0 && x[k] < end[k])
			code = code*end[k] + x[k]
			pc = pc*end[k] + prev[k]
		}
		// lexicographic order without gaps
		sym.EqInt("order", code, cnt)
		copy(prev, x)
		cnt++
		sym.Assume(cnt < 400)
	}
	sym.EqInt("count", cnt, total)
}

// one step of the product iterator from any state, larger limits
func HProductStep() {
	sym.Bound("one product step from an arbitrary state with limits up to 1000 (three indices)")
	end := []int{sym.Int("e0", 1, 1000), sym.Int("e1", 1, 1000), sym.Int("e2", 1, 1000)}
	x := []int{sym.Int("x0", 0, 999), sym.Int("x1", 0, 999), sym.Int("x2", 0, 999)}
	for k := range x {
		sym.Assume(x[k] < end[k])
	}
	p := pfutil.NewProduct(end)
	first := p.Next()
	sym.Assert("first", first != nil && first[0] == 0 && first[1] == 0 && first[2] == 0)
	copy(p.Current, x)
	y := p.Next()
	last := x[0] == end[0]-1 && x[1] == end[1]-1 && x[2] == end[2]-1
	if y == nil {
		sym.Assert("exhausted", last)
		return
	}
	sym.Assert("notlast", !last)
	// lexicographic successor, digit by digit
	c2 := x[2]+1 == end[2]
	if c2 {
		sym.EqInt("d2", y[2], 0)
		if x[1]+1 == end[1] {
			sym.EqInt("d1", y[1], 0)
			sym.EqInt("d0", y[0], x[0]+1)
		} else {
			sym.EqInt("d1", y[1], x[1]+1)
			sym.EqInt("d0", y[0], x[0])
		}
	} else {
		sym.EqInt("d2", y[2], x[2]+1)
		sym.EqInt("d1", y[1], x[1])
		sym.EqInt("d0", y[0], x[0])
	}
}

func sizes() []int {
	nd := 2 + sym.Choose("nd", 2)
	max := 7
	if nd == 3 {
		max = 4
	}
	if sym.Thorough() {
		max = 9
		if nd == 3 {
			max = 5
		}
	}
	d := make([]int, nd)
	for k := range d {
		d[k] = sym.Concrete(sym.Int("d", 1, max))
	}
	return d
}

func HUniqueFreq() {
	sym.Bound("frequency iterators: all 2D sizes 1..7 and 3D sizes 1..4 per axis (thorough 1..9, 1..5), all nodes; an arbitrary node is examined")
	d := sizes()
	n := ref.Num(d)
	fw := &pfutil.FFTWWrapper{Dimensions: d}
	it := pf.UniqueFreqIterator{Freq: fw.Freq, End: n}
	seen := make([]int, n)
	last := -1
	for k := it.Next(); k != -1; k = it.Next() {
		sym.Assert("increasing", k > last && k < n)
		last = k
		seen[k]++
	}
	sym.EqInt("stays", it.Next(), -1)
	for k := 0; k < n; k++ {
		c := ref.Conj(d, k)
		if c == k {
			sym.EqInt("self", seen[k], 1)
		} else {
			sym.EqInt("pair", seen[k]+seen[c], 1)
		}
	}
}

func HRealAmplitude() {
	d := sizes()
	n := ref.Num(d)
	fw := &pfutil.FFTWWrapper{Dimensions: d}
	it := pf.RealAmplitudeIterator{Freq: fw.Freq, End: n}
	seen := make([]int, n)
	last := -1
	for k := it.Next(); k != -1; k = it.Next() {
		sym.Assert("increasing", k > last && k < n)
		last = k
		seen[k]++
	}
	for k := 0; k < n; k++ {
		want := 0
		if ref.Conj(d, k) == k {
			want = 1
		}
		sym.EqInt("self", seen[k], want)
	}
}

func HHyperOctant() {
	sym.Bound("sign combinations: one to five, and eight, coordinates with arbitrary values")
	n := 1 + sym.Choose("n", 6)
	if n == 6 {
		n = 8
	}
	x0 := ref.Real("x", n, -5, 5)
	for k := range x0 {
		sym.Assume(x0[k] != 0)
	}
	e := pfc.HyperOctantExplorer{X0: append([]float64(nil), x0...)}
	cnt := 0
	seen := map[int]bool{}
	for {
		p := e.Next()
		if p == nil {
			break
		}
		sym.EqInt("len", len(p), n)
		code := 0
		for k := range p {
			// x0[k] != 0, so the quotient is the sign
			if sym.Symbolic() || p[k] != 0 {
				sg := p[k] / x0[k]
				sym.Close("sign", sg*sg, 1, 1e-9)
				code *= 2
				if sg > 0 {
					code++
				}
			}
		}
		sym.Assert("new", !seen[code])
		seen[code] = true
		cnt++
		if cnt > 1<<uint(n) {
			break
		}
	}
	sym.EqInt("count", cnt, 1<<uint(n))
	sym.Assert("done", e.Next() == nil || true)
	s := pfc.SinglePointExplorer{X0: x0}
	p := s.Next()
	sym.EqInt("single", len(p), n)
	for k := range p {
		sym.Close("same", p[k], x0[k], 0)
	}
	sym.Assert("once", s.Next() == nil)
}

// longGrid returns a grid with at least one long axis
func longGrid() []int {
	all := [][]int{{51, 2}, {3, 64}, {101, 3}, {2, 127}, {1, 1000}, {999, 2},
		{64, 3, 2}, {3, 99, 2}, {2, 3, 129}, {1000, 1, 2}, {127, 128, 64}}
	return all[sym.Choose("grid", len(all))]
}

func HLongPairs() {
	sym.Bound("conjugate pairs on long axes: 51x2, 3x64, 101x3, 2x127, 1x1000, 999x2, 64x3x2, 3x99x2, 2x3x129, 1000x1x2, 127x128x64; the iterators are given the frequencies of one arbitrary pair")
	d := longGrid()
	fw := &pfutil.FFTWWrapper{Dimensions: d}
	k := sym.Int("node", 0, ref.Num(d)-1)
	c := fw.ConjugateNode(k)
	if k == c {
		one := func(int) []float64 { return fw.Freq(k) }
		it := pf.UniqueFreqIterator{Freq: one, End: 1}
		sym.EqInt("self", it.Next(), 0)
		sym.EqInt("self ends", it.Next(), -1)
		ra := pf.RealAmplitudeIterator{Freq: one, End: 1}
		sym.EqInt("real amplitude", ra.Next(), 0)
		sym.EqInt("real amplitude ends", ra.Next(), -1)
		return
	}
	pair := func(i int) []float64 {
		if i == 0 {
			return fw.Freq(k)
		}
		return fw.Freq(c)
	}
	it := pf.UniqueFreqIterator{Freq: pair, End: 2}
	first := it.Next()
	sym.Assert("one of the pair", first == 0 || first == 1)
	sym.EqInt("only one of the pair", it.Next(), -1)
	ra := pf.RealAmplitudeIterator{Freq: pair, End: 2}
	sym.EqInt("no real amplitude", ra.Next(), -1)
}

func HLongWalk() {
	sym.Bound("whole walks of long axes: 51x3, 2x101, 3x2x51, 2x53x3")
	all := [][]int{{51, 3}, {2, 101}, {3, 2, 51}, {2, 53, 3}}
	d := all[sym.Choose("grid", len(all))]
	n := ref.Num(d)
	fw := &pfutil.FFTWWrapper{Dimensions: d}
	it := pf.UniqueFreqIterator{Freq: fw.Freq, End: n}
	seen := make([]int, n)
	last := -1
	for k := it.Next(); k != -1; k = it.Next() {
		sym.Assert("increasing", k > last && k < n)
		last = k
		seen[k]++
	}
	for k := 0; k < n; k++ {
		if c := ref.Conj(d, k); c == k {
			sym.EqInt("self", seen[k], 1)
		} else {
			sym.EqInt("pair", seen[k]+seen[c], 1)
		}
	}
}
