package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the harness, the repository and its dependencies.
type Program struct {
	SSA    *ssa.Program
	Pkgs   []*packages.Package
	ByPath map[string]*ssa.Package
	infos  sync.Map
	consts sync.Map
	exts   sync.Map
	redirs sync.Map
	mu     sync.Mutex
	Module string
}

// Load builds SSA for the patterns with the given overlay.
func Load(dir string, overlay map[string][]byte, env []string, flags []string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env, Overlay: overlay, BuildFlags: flags,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if p.Module != nil && p.Module.Main || len(p.GoFiles) > 0 && p.Module == nil && !strings.HasPrefix(p.GoFiles[0], os.Getenv("GOROOT")) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr := &Program{SSA: prog, Pkgs: pkgs, ByPath: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		pr.ByPath[p.Pkg.Path()] = p
	}
	return pr, nil
}

func (pr *Program) pos(in ssa.Instruction) string {
	if in == nil || in.Pos() == token.NoPos {
		return "?"
	}
	p := pr.SSA.Fset.Position(in.Pos())
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

func (pr *Program) constant(c *ssa.Const) value {
	if v, ok := pr.consts.Load(c); ok {
		return v
	}
	v := constValue(c)
	switch v.(type) {
	case structure, array:
		return v // mutable aggregates are rebuilt
	}
	pr.consts.Store(c, v)
	return v
}

func (pr *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	return pr.SSA.LookupMethod(t, m.Pkg(), m.Name())
}

func (pr *Program) build(fn *ssa.Function) {
	// Build is guarded by a Once; looking at Blocks first would see functions another path is still building.
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if fn.Blocks != nil {
		return
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// packages of the standard library whose code is executed from source
var stdInterpreted = map[string]bool{
	"errors": true, "io": true, "sort": true, "strings": true, "unicode": true, "unicode/utf8": true, "bytes": true,
	"bufio": true, "math": true, "math/cmplx": true, "math/bits": true, "container/list": true, "container/heap": true,
	"strconv": true, "path": true, "path/filepath": true, "internal/stringslite": true, "slices": true, "cmp": true, "maps": true,
	"encoding/csv": true, "encoding/binary": true, "iter": true, "internal/filepathlite": true, "text/tabwriter": true,
}

var stdInit = map[string]bool{"io": true, "bufio": true, "strconv": true, "encoding/csv": true, "unicode": true, "encoding/binary": true, "bytes": true, "strings": true, "io/fs": true, "math": true}

// third-party packages modelled entirely by the engine
func modelled(path string) bool {
	return strings.HasPrefix(path, "github.com/barnex/fftw") || path == "C"
}

func isStd(path string) bool {
	first := path
	if k := strings.IndexByte(path, '/'); k >= 0 {
		first = path[:k]
	}
	return !strings.Contains(first, ".")
}

func (pr *Program) interpretable(fn *ssa.Function) bool {
	p := pkgPathOf(fn)
	if p == "" {
		return true // wrappers, thunks
	}
	if isStd(p) {
		return stdInterpreted[p]
	}
	return !modelled(p)
}

func (pr *Program) runsInit(p *ssa.Package) bool {
	if p == nil {
		return true
	}
	path := p.Pkg.Path()
	if isStd(path) {
		return stdInit[path]
	}
	for _, pre := range []string{"github.com/davidkleiven/gopf", "gonum.org/v1/gonum", "github.com/davidkleiven/gononlin", "github.com/davidkleiven/gosfft", "gonum.org/v1/gonum/dsp"} {
		if path == pre || strings.HasPrefix(path, pre+"/") {
			return true
		}
	}
	return false
}

type extFn func(fr *frame, args []value) value

func (pr *Program) external(fn *ssa.Function) extFn {
	if v, ok := pr.exts.Load(fn); ok {
		return v.(extFn)
	}
	name := fn.String()
	var e extFn
	if x, ok := externals[name]; ok {
		e = x
	} else if k := strings.Index(name, "/zverif/sym."); k >= 0 && !strings.HasPrefix(name, "(") {
		e = symAPI[name[k+len("/zverif/sym."):]]
	}
	pr.exts.Store(fn, e)
	return e
}

// redirects are library functions executed through Go models (package zverif/gomodel).
var redirects = map[string]string{
	"gonum.org/v1/gonum/mat.Det":                  "Det",
	"(*gonum.org/v1/gonum/mat.Dense).Inverse":     "DenseInverse",
	"(*gonum.org/v1/gonum/mat.Dense).Solve":       "DenseSolve",
	"github.com/davidkleiven/gopf/pfc.QuadSquare": "QuadSquare",
	"github.com/davidkleiven/gopf/pfc.QuadCube":   "QuadCube",
}

func (pr *Program) redirect(fn *ssa.Function) *ssa.Function {
	if v, ok := pr.redirs.Load(fn); ok {
		return v.(*ssa.Function)
	}
	var r *ssa.Function
	if n, ok := redirects[fn.String()]; ok {
		if p := pr.ByPath["github.com/davidkleiven/gopf/zverif/gomodel"]; p != nil {
			r = p.Func(n)
		}
	}
	pr.redirs.Store(fn, r)
	return r
}

var externals = map[string]extFn{}

func reg(name string, f extFn) { externals[name] = f }
