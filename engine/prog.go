package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the program under analysis, shared by all workers.
type Prog struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	initial  []*packages.Package
	rts      rtTable
	buildMu  sync.Mutex
	fns      sync.Map // *ssa.Function -> *Fn
	tgOnce   sync.Once
	tglobals []*ssa.Global
	globals  sync.Map // *ssa.Global -> int
	gmu      sync.Mutex
	glist    []*ssa.Global
	nglob    int32
	rtErr    *RT // runtime.errorString-like type
	strRT    *RT
}

const modPath = "helena"

// Standard-library packages executed from source (pure Go, no hidden state).
var srcPkgs = map[string]bool{
	"strings": true, "strconv": true, "internal/strconv": true, "unicode/utf8": true, "unicode": true,
	"math": true, "math/bits": true, "slices": true, "sort": true, "errors": true, "path/filepath": true,
	"internal/filepathlite": true, "internal/stringslite": true, "bytes": true, "cmp": true, "iter": true,
	"maps": true, "golang.org/x/exp/maps": true, "golang.org/x/exp/slices": true, "golang.org/x/exp/constraints": true,
	"internal/bytealg": true, "path": true, "sync": true, "sync/atomic": true, "container/list": true, "unicode/utf16": true, "internal/itoa": true,
	"io": true, "io/fs": true, "internal/oserror": true, "golang.org/x/exp/cmp": true,
}

// Packages whose init functions are run (once per worker).
var initPkgs = map[string]bool{
	"strings": true, "strconv": true, "internal/strconv": true, "unicode/utf8": true, "unicode": true,
	"math": true, "math/bits": true, "slices": true, "sort": true, "path/filepath": true, "internal/filepathlite": true,
	"bytes": true, "golang.org/x/exp/maps": true, "golang.org/x/exp/slices": true, "maps": true, "io": true, "io/fs": true,
	"internal/oserror": true,
}

func isTarget(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

func loadProg(overlay map[string][]byte, dir string, patterns []string, tags string) (*Prog, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env, Overlay: overlay,
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	packages.Visit(initial, nil, func(p *packages.Package) {
		if isTarget(p.PkgPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	p := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, initial: initial}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	for path, sp := range p.pkgs {
		if isTarget(path) || srcPkgs[path] {
			sp.Build()
		}
	}
	if rp := p.pkgs["runtime"]; rp != nil {
		rp.Build()
		p.rtErr = p.rts.get(rp.Type("errorString").Type())
	} else {
		return nil, fmt.Errorf("no runtime package")
	}
	p.strRT = p.rts.get(types.Typ[types.String])
	return p, nil
}

func (p *Prog) globalIdx(g *ssa.Global) int {
	if i, ok := p.globals.Load(g); ok {
		return i.(int)
	}
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.globals.Load(g); ok {
		return i.(int)
	}
	i := len(p.glist)
	p.glist = append(p.glist, g)
	atomic.StoreInt32(&p.nglob, int32(len(p.glist)))
	p.globals.Store(g, i)
	return i
}

func (p *Prog) global(i int) *ssa.Global {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	return p.glist[i]
}

func (p *Prog) fn(sf *ssa.Function) *Fn {
	if f, ok := p.fns.Load(sf); ok {
		return f.(*Fn)
	}
	f := &Fn{p: p, sf: sf, name: fnName(sf)}
	f.intr = intrinsicFor(f.name)
	f.pkg = fnPkg(sf)
	a, _ := p.fns.LoadOrStore(sf, f)
	return a.(*Fn)
}

func fnName(sf *ssa.Function) string {
	if o := sf.Origin(); o != nil {
		return o.String()
	}
	return sf.String()
}

func fnPkg(sf *ssa.Function) string {
	f := sf
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o != f {
			f = o
			continue
		}
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		return ""
	}
	return ""
}

// executed lists the target functions executed (encoded) so far.
func (p *Prog) executed() []string {
	var out []string
	p.fns.Range(func(k, v any) bool {
		f := v.(*Fn)
		if atomic.LoadInt32(&f.hits) > 0 && isTarget(f.pkg) && !strings.Contains(f.pkg, "zzverif") {
			out = append(out, f.name)
		}
		return true
	})
	sort.Strings(out)
	return out
}
