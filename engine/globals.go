package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// targetGlobals lists the package-level variables of the code under test.
func (p *Prog) targetGlobals() []*ssa.Global {
	p.tgOnce.Do(func() {
		for path, pkg := range p.pkgs {
			if !isTarget(path) || strings.HasPrefix(path, modPath+"/zzverif") {
				continue
			}
			for name, mem := range pkg.Members {
				if g, ok := mem.(*ssa.Global); ok && name != "_" && !strings.Contains(name, "$") {
					p.tglobals = append(p.tglobals, g)
				}
			}
		}
		sort.Slice(p.tglobals, func(i, j int) bool { return p.tglobals[i].String() < p.tglobals[j].String() })
	})
	return p.tglobals
}

// globalState is a fingerprint of everything that can be reached from the
// package-level variables of the code under test: equal fingerprints mean
// isomorphic, equally valued structures.
func (m *Machine) globalState() []any {
	w := &gwalk{seen: map[any]int{}}
	for _, g := range m.p.targetGlobals() {
		w.ptr(m.globalPtr(m.p.globalIdx(g)))
	}
	return w.out
}

type gwalk struct {
	seen map[any]int
	out  []any
}

func (w *gwalk) ref(p any) bool {
	if n, ok := w.seen[p]; ok {
		w.out = append(w.out, -1-n)
		return false
	}
	w.seen[p] = len(w.seen)
	return true
}

func (w *gwalk) ptr(p *V) {
	if w.ref(p) {
		w.val(*p)
	}
}

func (w *gwalk) vals(vs []V) {
	w.out = append(w.out, len(vs))
	for i := range vs {
		w.ptr(&vs[i])
	}
}

func (w *gwalk) val(v V) {
	switch o := v.o.(type) {
	case nil:
		w.out = append(w.out, v.n)
	case string:
		w.out = append(w.out, o)
	case *SymStr:
		w.out = append(w.out, "sym")
		for _, b := range o.b {
			w.val(b)
		}
	case *Expr:
		w.out = append(w.out, o)
	case *V:
		w.ptr(o)
	case *Agg:
		w.vals(o.e)
	case *Slice:
		w.out = append(w.out, "slice", len(o.s))
		w.vals(o.s[:cap(o.s)])
	case *Map:
		if w.ref(o) {
			w.out = append(w.out, "map", o.live)
			es := make([]*mapEntry, 0, len(o.entries))
			for _, e := range o.entries {
				if !e.deleted {
					es = append(es, e)
				}
			}
			for _, e := range es {
				w.val(e.k)
				w.val(e.v)
			}
		}
	case *Closure:
		if w.ref(o) {
			w.out = append(w.out, o.fn)
			for _, e := range o.env {
				w.val(e)
			}
		}
	case *Iface:
		w.out = append(w.out, o.t)
		w.val(o.v)
	default:
		w.out = append(w.out, "opaque")
	}
}
