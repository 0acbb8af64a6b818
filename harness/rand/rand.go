// Package rand stands in for math/rand: every number drawn is an arbitrary one, chosen by the harness. Generators
// seeded alike give the same numbers, all others give new ones.
package rand

import "github.com/davidkleiven/gopf/zverif/sym"

// Norm makes the k-th normal number.
var Norm = func(k int) float64 { return sym.Float("normal", -6, 6) }

// Drawn lists the normal numbers made so far.
var Drawn []float64

// Source is a seed.
type Source interface{ Seed(int64) }

type source struct{ s int64 }

func (s *source) Seed(x int64) { s.s = x }

// NewSource remembers the seed.
func NewSource(seed int64) Source { return &source{seed} }

// Rand is a position in the sequence of a seed.
type Rand struct {
	seq   *seq
	n, u  int
	fixed bool
}

type seq struct {
	norm, uni []float64
	ids       int
}

var seqs = map[int64]*seq{}

var global = &Rand{seq: &seq{}, fixed: true}

var ids uint32

// Reset forgets everything drawn.
func Reset() {
	seqs = map[int64]*seq{}
	global = &Rand{seq: &seq{}, fixed: true}
	Drawn = nil
	ids = 0
}

// Restart starts a new process: generators begin again.
func Restart() {
	seqs = map[int64]*seq{}
	global = &Rand{seq: &seq{}, fixed: true}
}

// New starts the sequence of the seed.
func New(s Source) *Rand {
	r := &Rand{}
	r.Seed(s.(*source).s)
	return r
}

// Seed restarts.
func (r *Rand) Seed(x int64) {
	if seqs[x] == nil {
		seqs[x] = &seq{}
	}
	r.seq, r.n, r.u = seqs[x], 0, 0
	r.fixed = x < 1000000000
}

// NormFloat64 is the next normal number.
func (r *Rand) NormFloat64() float64 {
	if r.n == len(r.seq.norm) {
		v := Norm(len(Drawn))
		Drawn = append(Drawn, v)
		r.seq.norm = append(r.seq.norm, v)
	}
	r.n++
	return r.seq.norm[r.n-1]
}

// Float64 is the next uniform number.
func (r *Rand) Float64() float64 {
	if r.u == len(r.seq.uni) {
		r.seq.uni = append(r.seq.uni, sym.Float("uniform", 0, 0.999999))
	}
	r.u++
	return r.seq.uni[r.u-1]
}

// Intn is the next number below n.
func (r *Rand) Intn(n int) int { return int(r.Float64() * float64(n)) }

// ID makes the k-th identifier drawn from a generator seeded by the clock.
var ID = func(k int) int { return 1000 + k*7 }

// Uint32 is an identifier. Those of generators seeded by the clock all differ; a generator with a fixed seed, or none,
// gives the same ones in every process.
func (r *Rand) Uint32() uint32 {
	if r.fixed {
		r.seq.ids++
		return uint32(500 + r.seq.ids)
	}
	ids++
	return uint32(ID(int(ids)))
}

// Int31 is an identifier.
func (r *Rand) Int31() int32 { return int32(r.Uint32()) }

// Int is an identifier.
func (r *Rand) Int() int { return int(r.Uint32()) }

// Int63 is an identifier.
func (r *Rand) Int63() int64 { return int64(r.Uint32()) }

// Uint64 is an identifier.
func (r *Rand) Uint64() uint64 { return uint64(r.Uint32()) }

// ExpFloat64 is the next exponential number.
func (r *Rand) ExpFloat64() float64 { return 6 * r.Float64() }

// The functions of the shared generator.

func Seed(x int64)         { global.Seed(x) }
func NormFloat64() float64 { return global.NormFloat64() }
func ExpFloat64() float64  { return global.ExpFloat64() }
func Float64() float64     { return global.Float64() }
func Float32() float32     { return float32(global.Float64()) }
func Intn(n int) int       { return global.Intn(n) }
func Int31n(n int32) int32 { return int32(global.Intn(int(n))) }
func Int63n(n int64) int64 { return int64(global.Intn(int(n))) }
func Uint32() uint32       { return global.Uint32() }
func Uint64() uint64       { return global.Uint64() }
func Int31() int32         { return global.Int31() }
func Int() int             { return global.Int() }
func Int63() int64         { return global.Int63() }

func (r *Rand) Float32() float32     { return float32(r.Float64()) }
func (r *Rand) Int31n(n int32) int32 { return int32(r.Intn(int(n))) }
func (r *Rand) Int63n(n int64) int64 { return int64(r.Intn(int(n))) }

// Shuffle swaps elements.
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

// Perm is a permutation.
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
func Perm(n int) []int                   { return global.Perm(n) }
