package interp

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// Opts configures an exploration.
type Opts struct {
	Tier     string
	Seed     int64
	Workers  int
	Budget   time.Duration
	MaxPaths int
	Solver   []string
	Timeout  int
	Trace    bool
	LogSMT   string
}

// Case is one path's witness or counterexample for native execution.
type Case struct {
	Harness string             `json:"harness"`
	Vals    map[string]any     `json:"vals"`
	Label   string             `json:"label,omitempty"`
	Kind    string             `json:"kind,omitempty"`
	Msg     string             `json:"msg,omitempty"`
	Obs     map[string]float64 `json:"obs,omitempty"`
	End     string             `json:"end,omitempty"`
}

// Report is the outcome of exploring one harness.
type Report struct {
	Harness   string
	Paths     int
	Ends      map[string]int
	EndMsgs   map[string]int
	Asserts   int
	Proved    int
	Trivial   int
	Unknown   map[string]int
	Labels    map[string]bool
	Funcs     map[string]bool
	Exts      map[string]bool
	Bounds    []string
	Assumed   map[string]bool
	Queries   int
	Res       [3]int
	SolverT   time.Duration
	Steps     int64
	MaxSteps  int64 // longest path
	Hangs     int   // paths given up for their length
	Decisions int
	Witnesses []Case
	Viols     []Case
	Complete  bool
	Left      int
	Wall      time.Duration
}

// Explore runs fn on every feasible path.
func (pr *Program) Explore(fn *ssa.Function, o Opts) *Report {
	rep := &Report{Harness: fn.Name(), Ends: map[string]int{}, EndMsgs: map[string]int{}, Unknown: map[string]int{}, Labels: map[string]bool{},
		Funcs: map[string]bool{}, Exts: map[string]bool{}, Assumed: map[string]bool{}, Complete: true}
	t0 := time.Now()
	deadline := t0.Add(o.Budget)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := [][]Dec{nil}
	busy := 0
	stop := false
	var wg sync.WaitGroup
	quit := make(chan bool)
	go watchMemory(quit)
	defer close(quit)
	for w := 0; w < o.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			sol := term.NewSolver(o.Solver[0], o.Solver[1:]...)
			sol.Timeout = o.Timeout
			defer sol.Close()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 && !stop {
					cond.Wait()
				}
				if len(queue) == 0 || stop {
					rep.Queries += sol.Queries
					rep.SolverT += sol.Time
					for k := range sol.Res {
						rep.Res[k] += sol.Res[k]
					}
					mu.Unlock()
					cond.Broadcast()
					return
				}
				pre := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				busy++
				mu.Unlock()
				p, steps := pr.runPath(fn, pre, sol, o, deadline)
				mu.Lock()
				busy--
				if p.End != "redundant" {
					rep.merge(p, steps, o)
				}
				queue = append(queue, p.siblings...)
				if rep.Paths >= o.MaxPaths || time.Now().After(deadline) || len(rep.Viols) >= 40 || rep.Hangs >= 12 {
					if len(queue) > 0 {
						rep.Complete = false
					}
					rep.Left = len(queue)
					stop = true
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
	rep.Wall = time.Since(t0)
	return rep
}

func (rep *Report) merge(p *Path, steps int64, o Opts) {
	rep.Paths++
	rep.Ends[p.End]++
	if p.EndMsg != "" {
		m := p.EndMsg
		if len(m) > 600 {
			m = m[:600]
		}
		rep.EndMsgs[p.End+": "+m]++
	}
	rep.Asserts += p.Asserts
	rep.Proved += p.Proved
	rep.Trivial += p.trivial
	rep.Steps += steps
	if steps > rep.MaxSteps {
		rep.MaxSteps = steps
	}
	rep.Decisions += len(p.decs)
	for _, u := range p.Unknown {
		rep.Unknown[u]++
	}
	for l := range p.Reached {
		rep.Labels[l] = true
	}
	for f := range p.funcs {
		rep.Funcs[f.String()] = true
	}
	for f := range p.exts {
		if !strings.Contains(f, "/zverif/") {
			rep.Exts[f] = true
		}
	}
	for _, b := range p.Bounds {
		found := false
		for _, x := range rep.Bounds {
			if x == b {
				found = true
			}
		}
		if !found {
			rep.Bounds = append(rep.Bounds, b)
		}
	}
	for a := range p.Assumed {
		rep.Assumed[a] = true
	}
	if p.End == "limit" || p.End == "unsupported" || p.End == "internal" {
		rep.Complete = false
	}
	for _, v := range p.Viol {
		if v.Kind == "hang" {
			rep.Hangs++
		}
		rep.Viols = append(rep.Viols, Case{Harness: rep.Harness, Vals: v.Vals, Label: v.Label, Kind: v.Kind, Msg: v.Msg})
	}
	if w := p.wit; w != nil {
		w.Harness = rep.Harness
		w.End = p.End
		rep.Witnesses = append(rep.Witnesses, *w)
	}
}

// stepLimit is the number of instructions after which a path is given up (and tried on the compiled code).
func stepLimit(o Opts) int64 {
	if o.Tier == "thorough" {
		return 400_000_000
	}
	return 120_000_000
}

// endless are the limits that a path which never ends runs into.
var endless = map[string]bool{"step limit": true, "decision limit": true, "string too large": true, "slice too large": true, "memory limit": true}

// tight is set while the process holds too much memory.
var tight atomic.Bool

func watchMemory(done chan bool) {
	for {
		select {
		case <-done:
			return
		case <-time.After(500 * time.Millisecond):
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 18<<30 {
				tight.Store(true)
				time.Sleep(200 * time.Millisecond)
				runtime.GC()
				tight.Store(false)
			}
		}
	}
}

func (pr *Program) runPath(fn *ssa.Function, pre []Dec, sol *term.Solver, o Opts, deadline time.Time) (p *Path, steps int64) {
	p = &Path{C: term.NewCtx(), prefix: pre, S: sol, Tier: o.Tier, Seed: o.Seed, deadline: deadline, maxSteps: stepLimit(o), maxDecs: 3000,
		nameCount: map[string]int{}, Assumed: map[string]bool{}, funcs: map[*ssa.Function]bool{}, exts: map[string]bool{},
		Reached: map[string]bool{}, rng: rand.New(rand.NewSource(o.Seed*7919 + int64(len(pre))*131 + 17)), Trace: o.Trace}
	p.model = term.NewModel()
	i := &interpreter{prog: pr, p: p, globals: map[*ssa.Global]*value{}, initing: map[*ssa.Package]bool{}}
	i.world = newWorld(i)
	func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
				p.End = "done"
			case pathEnd:
				p.End, p.EndMsg = r.kind, r.msg
			case unsupported:
				p.End, p.EndMsg = "unsupported", string(r)
			case targetPanic:
				p.End = "panic"
				msg := toString(r.v)
				p.EndMsg = msg + " in " + strings.Join(p.panicTrace, "; ")
				p.Reached["panic"] = true
				i.safely(func() { p.violation("panic", "panic", p.EndMsg, nil) })
			case exitPanic:
				p.End = "exit"
				p.EndMsg = fmt.Sprintf("exit %d: %s", r.code, r.msg)
				i.safely(func() { p.violation("exit", "exit", p.EndMsg, nil) })
			default:
				p.End = "internal"
				p.EndMsg = fmt.Sprintf("%v; %s", r, p.errTrace)
				if o.Trace {
					p.EndMsg += "\n" + string(debug.Stack())
				}
			}
		}()
		if fn.Pkg != nil {
			callSSA(i, nil, 0, fn.Pkg.Func("init"), nil, nil)
		}
		callSSA(i, nil, 0, fn, nil, nil)
	}()
	steps = i.steps
	if p.End == "limit" && endless[p.EndMsg] {
		i.safely(func() { p.violation("termination", "hang", p.EndMsg, nil) })
	} else if p.End != "infeasible" {
		i.safely(func() { p.witness(i) })
	}
	return p, steps
}

func (i *interpreter) safely(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if i.p.Trace {
				fmt.Println("safely:", r)
			}
		}
	}()
	f()
}

// witness makes a concrete input that follows this path.
func (p *Path) witness(i *interpreter) {
	if time.Now().After(p.deadline) {
		return
	}
	m := p.fullModel(nil)
	if m == nil {
		return
	}
	m = m.Clone()
	// spread unconstrained or zero-valued reals
	n := m.Clone()
	for _, in := range p.inputs {
		if in.kind == 'r' && n.R[in.name] == 0 {
			n.R[in.name] = p.randIn(in.lo, in.hi)
		}
	}
	if p.confirm(p.PC, n, 0) {
		m = n
	}
	vals := p.values(m)
	if !p.confirm(p.PC, m, 0) {
		// approximate witness only: do not compare observations
		p.wit = &Case{Vals: vals}
		return
	}
	e := p.C.NewEval(m)
	ob := map[string]float64{}
	for k, x := range p.Obs {
		key := fmt.Sprintf("%s@%d", x.name, k)
		switch v := x.v.(type) {
		case float64:
			ob[key] = v
		case *term.R:
			ob[key] = e.Real(v)
		}
		if math.IsNaN(ob[key]) || math.IsInf(ob[key], 0) {
			delete(ob, key)
		}
	}
	p.wit = &Case{Vals: vals, Obs: ob}
}

// FuncsIn lists encoded functions of packages with the given prefix.
func (rep *Report) FuncsIn(prefix string) []string {
	var out []string
	for f := range rep.Funcs {
		if strings.Contains(f, prefix) && !strings.Contains(f, "/zverif/") {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}
