// Command engine decides one property: it symbolically executes the harnesses
// of that property over the repository's current source, replays every
// candidate counterexample on the compiled code and writes the evidence file.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/interp"
)

const modPath = "github.com/davidkleiven/gopf"

var (
	verif   = "/verif"
	repo    = "/repo"
	scratch string
)

type nres struct {
	Begin   *int                          `json:"begin"`
	EndMark *int                          `json:"end"`
	Case    int                           `json:"case"`
	Fails   []struct{ Label, Msg string } `json:"fails"`
	Obs     map[string]float64            `json:"obs"`
	Panic   string                        `json:"panic"`
	Exit    string                        `json:"exit"`
	Assumed bool                          `json:"assumed"`
	Missing string                        `json:"missing"`
	Asserts int                           `json:"asserts"`
	done    bool
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "tier")
	only := flag.String("only", "", "only this harness")
	trace := flag.Bool("trace", false, "trace")
	budget := flag.Int("budget", 0, "seconds")
	workers := flag.Int("workers", 0, "solver workers")
	replay := flag.String("replay", "", "replay a counterexample file")
	noNative := flag.Bool("nonative", false, "skip native runs (debugging)")
	flag.StringVar(&repo, "repo", repo, "repository")
	flag.StringVar(&verif, "verif", verif, "verification directory")
	flag.Parse()
	t0 := time.Now()
	var err error
	scratch, err = os.MkdirTemp("", "verifrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := run(*prop, *tier, *only, *trace, *budget, *workers, *replay, *noNative, t0)
	os.RemoveAll(scratch)
	os.Exit(code)
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=1", "GODEBUG=")
	return env
}

// overlay maps virtual files below /repo/zverif to the harness sources.
func overlay(prop string) (map[string][]byte, map[string]string, []string, error) {
	files := map[string][]byte{}
	disk := map[string]string{}
	hp := strings.ToLower(prop)
	add := func(dst, src string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		files[dst] = b
		disk[dst] = src
		return nil
	}
	for _, pkg := range []string{"sym", "ref", "mdl", "gomodel", hp} {
		l, _ := filepath.Glob(filepath.Join(verif, "harness", pkg, "*.go"))
		if len(l) == 0 && pkg == hp {
			return nil, nil, nil, fmt.Errorf("no harness for %s", prop)
		}
		for _, f := range l {
			if err := add(filepath.Join(repo, "zverif", pkg, filepath.Base(f)), f); err != nil {
				return nil, nil, nil, err
			}
		}
	}
	// in-package files exposing internals (package _in): harness/<p>/in/<pkg>/x.go -> /repo/<pkg>/zz_verif_x.go
	l, _ := filepath.Glob(filepath.Join(verif, "harness", hp, "in", "*", "*.go"))
	for _, f := range l {
		pkg := filepath.Base(filepath.Dir(f))
		if err := add(filepath.Join(repo, pkg, "zz_verif_"+filepath.Base(f)), f); err != nil {
			return nil, nil, nil, err
		}
	}
	if err := swapImports(hp, files, disk, add); err != nil {
		return nil, nil, nil, err
	}
	// harness functions
	var hs []string
	fset := token.NewFileSet()
	srcs, _ := filepath.Glob(filepath.Join(verif, "harness", hp, "*.go"))
	for _, f := range srcs {
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, nil, nil, err
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H") && fd.Type.Params.NumFields() == 0 &&
				len(fd.Name.Name) > 1 && fd.Name.Name[1] >= 'A' && fd.Name.Name[1] <= 'Z' {
				hs = append(hs, fd.Name.Name)
			}
		}
	}
	sort.Strings(hs)
	var mb bytes.Buffer
	fmt.Fprintf(&mb, "package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", modPath+"/zverif/"+hp, modPath+"/zverif/sym")
	for _, h := range hs {
		fmt.Fprintf(&mb, "\t\t%q: h.%s,\n", h, h)
	}
	mb.WriteString("\t})\n}\n")
	mainSrc := filepath.Join(scratch, "main_gen.go")
	if err := os.WriteFile(mainSrc, mb.Bytes(), 0644); err != nil {
		return nil, nil, nil, err
	}
	disk[filepath.Join(repo, "zverif", "run_"+hp, "main.go")] = mainSrc
	return files, disk, hs, nil
}

// swapImports replaces imports of the repository's packages by stand-ins, as listed in harness/<p>/swap.json.
func swapImports(hp string, files map[string][]byte, disk map[string]string, add func(dst, src string) error) error {
	b, err := os.ReadFile(filepath.Join(verif, "harness", hp, "swap.json"))
	if err != nil {
		return nil
	}
	var swaps []struct {
		From, To string   // import path, harness package standing in
		In       []string // package directories of the repository
	}
	if err := json.Unmarshal(b, &swaps); err != nil {
		return err
	}
	for _, sw := range swaps {
		l, _ := filepath.Glob(filepath.Join(verif, "harness", sw.To, "*.go"))
		for _, f := range l {
			if err := add(filepath.Join(repo, "zverif", sw.To, filepath.Base(f)), f); err != nil {
				return err
			}
		}
		for _, dir := range sw.In {
			l, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
			for _, f := range l {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				src, ok := files[f]
				if !ok {
					if src, err = os.ReadFile(f); err != nil {
						return err
					}
				}
				fset := token.NewFileSet()
				af, err := parser.ParseFile(fset, f, src, parser.ImportsOnly)
				if err != nil {
					return err
				}
				for _, im := range af.Imports {
					if im.Path.Value != strconv.Quote(sw.From) {
						continue
					}
					a, z := fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset
					src = []byte(string(src[:a]) + strconv.Quote(modPath+"/zverif/"+sw.To) + string(src[z:]))
					tmp := filepath.Join(scratch, strings.ReplaceAll(strings.TrimPrefix(f, repo+"/"), "/", "_"))
					if err := os.WriteFile(tmp, src, 0644); err != nil {
						return err
					}
					files[f], disk[f] = src, tmp
					break
				}
			}
		}
	}
	return nil
}

func modfile() (string, error) {
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(scratch, n), b, 0644); err != nil {
			return "", err
		}
	}
	return filepath.Join(scratch, "go.mod"), nil
}

func buildNative(prop string, disk map[string]string, mf string) (string, error) {
	ov := struct{ Replace map[string]string }{disk}
	b, _ := json.Marshal(ov)
	ovf := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ovf, b, 0644)
	out := filepath.Join(scratch, "native_"+prop)
	cmd := exec.Command("go", "build", "-modfile="+mf, "-overlay="+ovf, "-o", out, modPath+"/zverif/run_"+strings.ToLower(prop))
	cmd.Dir = repo
	cmd.Env = goEnv()
	o, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, o)
	}
	return out, nil
}

// runNative executes cases on the compiled code, restarting after exits.
func runNative(bin string, cases []interp.Case, tier string, deadline time.Time) []nres {
	res := make([]nres, len(cases))
	if len(cases) == 0 {
		return res
	}
	var lean []map[string]any
	for _, c := range cases {
		v := map[string]float64{}
		for k, x := range c.Vals {
			switch x := x.(type) {
			case float64:
				v[k] = x
			case int64:
				v[k] = float64(x)
			case bool:
				if x {
					v[k] = 1
				} else {
					v[k] = 0
				}
			}
		}
		lean = append(lean, map[string]any{"harness": c.Harness, "vals": v})
	}
	b, err := json.Marshal(lean)
	if err != nil {
		fmt.Fprintln(os.Stderr, "native cases:", err)
		return res
	}
	cf := filepath.Join(scratch, fmt.Sprintf("cases%d.json", time.Now().UnixNano()))
	rf := cf + ".res"
	os.WriteFile(cf, b, 0644)
	defer os.Remove(cf)
	defer os.Remove(rf)
	first := 0
	tmp := filepath.Join(scratch, "ntmp")
	os.MkdirAll(tmp, 0755)
	for first < len(cases) && time.Now().Before(deadline) {
		os.Remove(rf)
		cmd := exec.Command(bin, cf, rf, fmt.Sprint(first), tier)
		if len(cases) == 1 && cases[0].Kind == "hang" { // may never end: limits of file size and memory
			cmd = exec.Command("/bin/bash", "-c", `ulimit -f 500000 -v 16000000; exec "$@"`, "-", bin, cf, rf, fmt.Sprint(first), tier)
		}
		cmd.Dir = tmp
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "GODEBUG=randautoseed=0")
		var eb bytes.Buffer
		lw := &limited{b: &eb}
		cmd.Stderr = lw
		cmd.Stdout = lw
		if err := cmd.Start(); err != nil {
			return res
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		timedOut := false
		lim := 60*time.Second + time.Duration(len(cases))*50*time.Millisecond
		if d := time.Until(deadline); d < lim {
			lim = d
		}
		select {
		case <-done:
		case <-time.After(lim):
			cmd.Process.Kill()
			<-done
			timedOut = true
		}
		data, _ := os.ReadFile(rf)
		dec := json.NewDecoder(bytes.NewReader(data))
		begun, ended := -1, false
		for {
			var r nres
			if err := dec.Decode(&r); err != nil {
				break
			}
			switch {
			case r.Begin != nil:
				begun = *r.Begin
			case r.EndMark != nil:
				ended = true
			default:
				r.done = true
				res[r.Case] = r
				begun = -1
				first = r.Case + 1
			}
		}
		if ended {
			break
		}
		if begun >= 0 {
			if !timedOut {
				msg := eb.String()
				if len(msg) > 1500 {
					msg = msg[:1500]
				}
				res[begun] = nres{Case: begun, Exit: "process ended: " + msg, done: true}
			}
			first = begun + 1
		} else if first < len(cases) {
			break
		}
	}
	return res
}

// limited keeps the first part of what is written.
type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// runLong tries paths that did not end within the step limit, each on its own, with limits of time and memory.
func runLong(bin string, cases []interp.Case, tier string) []nres {
	var out []nres
	for _, c := range cases {
		t := time.Now()
		lim := 30 * time.Second
		r := runNative(bin, []interp.Case{c}, tier, t.Add(lim))[0]
		if !r.done && time.Since(t) > lim-time.Second {
			r = nres{Exit: fmt.Sprintf("does not finish: still running after %v", lim), done: true}
		}
		out = append(out, r)
	}
	return out
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Match    string `json:"match"` // substring of the case signature
	What     string `json:"what"`
}

func loadKnown(prop string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	var k struct{ Findings []known }
	if json.Unmarshal(b, &k) != nil {
		return nil
	}
	var out []known
	for _, x := range k.Findings {
		if x.Property == prop && x.Status == "known" {
			out = append(out, x)
		}
	}
	return out
}

func (k known) matches(h, label string) bool {
	return k.Harness == h && k.Label == label
}

func run(prop, tier, only string, trace bool, budgetS, workers int, replay string, noNative bool, t0 time.Time) int {
	files, disk, hs, err := overlay(prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	mf, err := modfile()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if replay != "" {
		return doReplay(prop, replay, disk, mf)
	}
	type nb struct {
		bin string
		err error
	}
	nbc := make(chan nb, 1)
	go func() {
		if noNative {
			nbc <- nb{"", fmt.Errorf("skipped")}
			return
		}
		b, e := buildNative(prop, disk, mf)
		nbc <- nb{b, e}
	}()
	hpkg := modPath + "/zverif/" + strings.ToLower(prop)
	pr, lerr := interp.Load(repo, files, goEnv(), []string{"-modfile=" + mf, "-tags=noasm,appengine,safe"}, hpkg, modPath+"/zverif/gomodel")
	loadT := time.Since(t0)
	var notes []string
	var reps []*interp.Report
	if lerr != nil {
		notes = append(notes, "the harness does not type-check against this tree; nothing was decided: "+clip(lerr.Error(), 1500))
		fmt.Fprintln(os.Stderr, "load:", lerr)
	}
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	total := time.Duration(budgetS) * time.Second
	if budgetS == 0 {
		total = 240 * time.Second
		if tier == "thorough" {
			total = 780 * time.Second
		}
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if lerr == nil {
		pkg := pr.ByPath[hpkg]
		var fns []*ssa.Function
		for _, h := range hs {
			if only != "" && h != only {
				continue
			}
			if f := pkg.Func(h); f != nil {
				fns = append(fns, f)
			}
		}
		deadline := t0.Add(total)
		for k, f := range fns {
			left := time.Until(deadline)
			share := left
			if n := len(fns) - k; n > 1 {
				// later harnesses keep at least an even share of what is left
				share = left / time.Duration(n) * 2
				if share > left {
					share = left
				}
			}
			o := interp.Opts{Tier: tier, Seed: seed, Workers: workers, Budget: share, MaxPaths: 200000, Solver: []string{"z3-new", "-in"}, Timeout: 10000, Trace: trace}
			if tier == "thorough" {
				o.Timeout = 40000
			}
			rep := pr.Explore(f, o)
			reps = append(reps, rep)
			fmt.Printf("%s/%s: paths=%d asserts=%d proved=%d unknown=%d candidates=%d complete=%v queries=%d solver=%.1fs wall=%.1fs ends=%v\n", prop, rep.Harness,
				rep.Paths, rep.Asserts, rep.Proved, sum(rep.Unknown), len(rep.Viols), rep.Complete, rep.Queries, rep.SolverT.Seconds(), rep.Wall.Seconds(), rep.Ends)
			if trace {
				fmt.Println("   longest path:", rep.MaxSteps, "steps")
			}
			for m, n := range rep.EndMsgs {
				if !strings.HasPrefix(m, "infeasible") || trace {
					fmt.Printf("   %dx %s\n", n, clip(m, 400))
				}
			}
			for u, n := range rep.Unknown {
				fmt.Printf("   undecided %dx %s\n", n, u)
			}
		}
	}
	nat := <-nbc
	if nat.err != nil && !noNative {
		notes = append(notes, "native harness did not build: "+clip(nat.err.Error(), 800))
		fmt.Fprintln(os.Stderr, "native build:", nat.err)
	}
	// replay
	type viol struct {
		c   interp.Case
		msg string
	}
	var confirmed []viol
	replayed, unconfirmed, validated, mismatched, nativeFailed := 0, 0, 0, 0, 0
	var mism []string
	if nat.bin != "" {
		var cands, wits, long []interp.Case
		for _, r := range reps {
			per := map[string]int{}
			for _, v := range r.Viols {
				if v.Kind == "hang" {
					if len(long) < 4 && per[v.Label] < 2 {
						long = append(long, v)
						per[v.Label]++
					}
				} else if per[v.Label] < 6 {
					cands = append(cands, v)
					per[v.Label]++
				}
			}
			w := r.Witnesses
			lim := 400
			if tier == "thorough" {
				lim = 3000
			}
			step := 1
			if len(w) > lim {
				step = len(w)/lim + 1
			}
			for k := 0; k < len(w); k += step {
				wits = append(wits, w[k])
			}
		}
		nd := time.Now().Add(120 * time.Second)
		for k, r := range append(runNative(nat.bin, cands, tier, nd), runLong(nat.bin, long, tier)...) {
			if k == 0 {
				cands = append(cands, long...)
			}
			if !r.done {
				continue
			}
			replayed++
			c := cands[k]
			if msg, bad := failure(r); bad {
				confirmed = append(confirmed, viol{relabel(c, r), msg})
			} else {
				unconfirmed++
				notes = append(notes, clip(fmt.Sprintf("candidate %s/%s (%s) was not reproduced by the compiled code (assumption failed natively: %v)", c.Harness, c.Label, c.Msg, r.Assumed), 400))
				if trace {
					b, _ := json.Marshal(c)
					fmt.Println("   unconfirmed:", clip(string(b), 1500))
				}
			}
		}
		for k, r := range runNative(nat.bin, wits, tier, time.Now().Add(150*time.Second)) {
			if !r.done || r.Assumed {
				continue
			}
			c := wits[k]
			if msg, bad := failure(r); bad {
				nativeFailed++
				confirmed = append(confirmed, viol{relabel(c, r), "on the witness of a path: " + msg})
				continue
			}
			ok := true
			for n, v := range c.Obs {
				g, has := r.Obs[n]
				if !has {
					continue
				}
				if math.Abs(g-v) > 1e-6*(1+math.Max(math.Abs(g), math.Abs(v))) {
					ok = false
					if len(mism) < 5 {
						mism = append(mism, fmt.Sprintf("%s %s: symbolic %g compiled %g", c.Harness, n, v, g))
					}
				}
			}
			if ok {
				validated++
			} else {
				mismatched++
			}
		}
	}
	if mismatched > 0 {
		fmt.Println("   observation mismatches:", mismatched, mism)
		notes = append(notes, fmt.Sprintf("%d path witnesses where the symbolic value differs from the compiled one: %v", mismatched, mism))
	}
	// verdict
	kf := loadKnown(prop)
	seenKnown := map[string]bool{}
	code := 0
	seenV := map[string]bool{}
	var vlist []string
	for _, v := range confirmed {
		matched := false
		for _, k := range kf {
			if k.matches(v.c.Harness, v.c.Label) {
				matched = true
				if !seenKnown[k.What] {
					seenKnown[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
			}
		}
		if matched {
			continue
		}
		key := v.c.Harness + "/" + v.c.Label
		if seenV[key] {
			continue
		}
		seenV[key] = true
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		f := filepath.Join(dir, fmt.Sprintf("%s_%s_%s.json", prop, v.c.Harness, clean(v.c.Label)))
		v.c.Msg = v.msg
		b, _ := json.MarshalIndent(v.c, "", " ")
		os.WriteFile(f, b, 0644)
		fmt.Printf("   %s: %s\n", key, clip(v.msg, 700))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		vlist = append(vlist, key+": "+clip(v.msg, 500))
		code = 1
	}
	// a known finding is still reported when its counterexample came out of the solver only
	ev := evidence(prop, tier, seed, reps, t0, loadT, notes, replayed, unconfirmed, validated, mismatched, nativeFailed, vlist, kf)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d violation(s), replayed %d candidate(s) (%d not reproduced), validated %d path witness(es), load %.1fs, total %.1fs\n", prop, tier, len(vlist), replayed, unconfirmed, validated, loadT.Seconds(), time.Since(t0).Seconds())
	return code
}

// relabel names the assertion that failed in the compiled run.
func relabel(c interp.Case, r nres) interp.Case {
	if r.Panic != "" {
		c.Label = "panic"
	} else if r.Exit != "" {
		c.Label = "exit"
	} else {
		for _, f := range r.Fails {
			if f.Label == c.Label {
				return c
			}
		}
		if len(r.Fails) > 0 {
			c.Label = r.Fails[0].Label
		}
	}
	return c
}

func failure(r nres) (string, bool) {
	if r.Panic != "" {
		return "panic: " + clip(r.Panic, 1200), true
	}
	if r.Exit != "" {
		return r.Exit, true
	}
	if len(r.Fails) > 0 {
		var s []string
		for k, f := range r.Fails {
			if k > 3 {
				break
			}
			s = append(s, f.Label+": "+f.Msg)
		}
		return strings.Join(s, "; "), true
	}
	return "", false
}

func doReplay(prop, file string, disk map[string]string, mf string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var c interp.Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin, err := buildNative(prop, disk, mf)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := runNative(bin, []interp.Case{c}, "quick", time.Now().Add(120*time.Second))
	if c.Kind == "hang" {
		r = runLong(bin, []interp.Case{c}, "quick")
	}
	if msg, bad := failure(r[0]); bad {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		return 1
	}
	fmt.Println("the case holds on the current tree")
	return 0
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, clip(s, 60))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}
