package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is a Go value of the interpreted program.
//
//	integers, bools, floats: n (canonical: sign/zero-extended, IEEE bits), or o=*Expr if symbolic
//	strings:  o = string | *SymStr (nil = "")
//	pointers: o = *V | *SymPtr | native object (nil = nil)
//	struct/array: o = *Agg
//	slices:   o = *Slice (nil = nil slice)
//	maps:     o = *Map
//	funcs:    o = *Closure
//	interfaces: o = *Iface
type V struct {
	n uint64
	o any
}

type Agg struct{ e []V }
type Slice struct {
	s  []V
	el int // element size in bytes (for growth)
}
type SymStr struct{ b []V } // each byte: n or o=*Expr (w=8)
type SymPtr struct {
	base []V
	idx  *Expr // w=64, known in bounds
}
type Closure struct {
	fn   *Fn
	env  []V
	recv *V // bound builtin/native receiver (unused)
}
type Iface struct {
	t *RT
	v V
}

// RT is an interned run-time type.
type RT struct {
	id      int
	t       types.Type
	mu      sync.RWMutex
	methods map[string]*Fn
	impl    map[*RT]bool
	eq      int8 // 0 comparable basic..., see eqKind
}

func (r *RT) String() string {
	return types.TypeString(r.t, func(p *types.Package) string { return p.Name() })
}

type rtTable struct {
	mu   sync.RWMutex
	m    typeutil.Map
	list []*RT
}

func (t *rtTable) get(ty types.Type) *RT {
	ty = types.Unalias(ty)
	t.mu.RLock()
	if r, ok := t.m.At(ty).(*RT); ok {
		t.mu.RUnlock()
		return r
	}
	t.mu.RUnlock()
	t.mu.Lock()
	defer t.mu.Unlock()
	if r, ok := t.m.At(ty).(*RT); ok {
		return r
	}
	r := &RT{id: len(t.list), t: ty, methods: map[string]*Fn{}, impl: map[*RT]bool{}}
	t.list = append(t.list, r)
	t.m.Set(ty, r)
	return r
}

func engineErr(s string) error { return &EngineError{s} }

type EngineError struct{ msg string }

func (e *EngineError) Error() string { return e.msg }

// ---- numeric kinds ------------------------------------------------------

type nkind struct {
	w      uint8
	signed bool
	float  bool
	isBool bool
	isStr  bool
}

func basicKind(t types.Type) (nkind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nkind{}, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return nkind{isBool: true}, true
	case types.Int, types.Int64, types.UntypedInt:
		return nkind{w: 64, signed: true}, true
	case types.Int8:
		return nkind{w: 8, signed: true}, true
	case types.Int16:
		return nkind{w: 16, signed: true}, true
	case types.Int32, types.UntypedRune:
		return nkind{w: 32, signed: true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return nkind{w: 64}, true
	case types.Uint8:
		return nkind{w: 8}, true
	case types.Uint16:
		return nkind{w: 16}, true
	case types.Uint32:
		return nkind{w: 32}, true
	case types.Float64, types.UntypedFloat:
		return nkind{w: wF64, float: true}, true
	case types.Float32:
		return nkind{w: 32, float: true}, true
	case types.String, types.UntypedString:
		return nkind{isStr: true}, true
	}
	return nkind{}, false
}

func canon(v uint64, k nkind) uint64 {
	if k.w >= 64 {
		return v
	}
	if k.signed {
		return uint64(sx(v, k.w))
	}
	return v & mask(k.w)
}

// ---- zero values, copying -------------------------------------------------

func zeroOf(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{e: make([]V, u.NumFields())}
		for i := range a.e {
			a.e[i] = zeroOf(u.Field(i).Type())
		}
		return V{o: a}
	case *types.Array:
		a := &Agg{e: make([]V, u.Len())}
		if needsZero(u.Elem()) {
			for i := range a.e {
				a.e[i] = zeroOf(u.Elem())
			}
		}
		return V{o: a}
	case *types.Tuple:
		a := &Agg{e: make([]V, u.Len())}
		for i := range a.e {
			a.e[i] = zeroOf(u.At(i).Type())
		}
		return V{o: a}
	}
	return V{}
}

// needsZero reports whether the zero value of t is not V{}.
func needsZero(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyV(v V) V {
	if a, ok := v.o.(*Agg); ok {
		return V{o: copyAgg(a)}
	}
	return v
}

func copyAgg(a *Agg) *Agg {
	c := &Agg{e: make([]V, len(a.e))}
	for i := range a.e {
		c.e[i] = copyV(a.e[i])
	}
	return c
}

// storeV writes v into the location p, keeping nested locations' identity.
func storeV(p *V, v V) {
	if a, ok := v.o.(*Agg); ok {
		d, ok := p.o.(*Agg)
		if !ok {
			*p = copyV(v)
			return
		}
		for i := range a.e {
			storeV(&d.e[i], a.e[i])
		}
		return
	}
	*p = v
}

// ---- strings ----------------------------------------------------------------

func strLen(v V) int {
	switch s := v.o.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(engineErr(fmt.Sprintf("strLen of %T", v.o)))
}

func strAt(v V, i int) V {
	switch s := v.o.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic(engineErr(fmt.Sprintf("strAt of %T", v.o)))
}

func strBytes(v V) []V {
	switch s := v.o.(type) {
	case nil:
		return nil
	case string:
		r := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			r[i].n = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(engineErr(fmt.Sprintf("strBytes of %T", v.o)))
}

// mkStr makes a string value from bytes (which must not be mutated later).
func mkStr(b []V) V {
	for i := range b {
		if b[i].o != nil {
			return V{o: &SymStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return V{o: string(bs)}
}

func strSlice(v V, lo, hi int) V {
	switch s := v.o.(type) {
	case nil:
		return v
	case string:
		return V{o: s[lo:hi]}
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic(engineErr("strSlice"))
}

func strConcat(a, b V) V {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	as, aok := a.o.(string)
	bs, bok := b.o.(string)
	if aok && bok {
		return V{o: as + bs}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]V, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return V{o: &SymStr{r}}
}

// concStr returns the concrete string, if it is concrete.
func concStr(v V) (string, bool) {
	switch s := v.o.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (m *Machine) strEq(a, b V) V {
	if strLen(a) != strLen(b) {
		return V{}
	}
	as, aok := concStr(a)
	bs, bok := concStr(b)
	if aok && bok {
		if as == bs {
			return V{n: 1}
		}
		return V{}
	}
	x, y := strBytes(a), strBytes(b)
	r := m.ctx.tru
	for i := range x {
		if x[i].o == nil && y[i].o == nil {
			if x[i].n != y[i].n {
				return V{}
			}
			continue
		}
		r = m.ctx.And(r, m.ctx.Bin(OEq, m.toExpr(x[i], 8), m.toExpr(y[i], 8)))
	}
	return boolV(r)
}

// strLess builds a < b.
func (m *Machine) strLess(a, b V) V {
	as, aok := concStr(a)
	bs, bok := concStr(b)
	if aok && bok {
		if as < bs {
			return V{n: 1}
		}
		return V{}
	}
	x, y := strBytes(a), strBytes(b)
	n := min(len(x), len(y))
	r := m.ctx.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		ex, ey := m.toExpr(x[i], 8), m.toExpr(y[i], 8)
		r = m.ctx.Or(m.ctx.Bin(OUlt, ex, ey), m.ctx.And(m.ctx.Bin(OEq, ex, ey), r))
	}
	return boolV(r)
}

func boolV(e *Expr) V {
	if e.isConst() {
		return V{n: e.n}
	}
	return V{o: e}
}

// exprV turns an expression into a value of kind k.
func exprV(e *Expr, k nkind) V {
	if e.isConst() {
		return V{n: canon(e.n, k)}
	}
	return V{o: e}
}

func (m *Machine) toExpr(v V, w uint8) *Expr {
	if v.o != nil {
		return v.o.(*Expr)
	}
	if w == wF64 {
		return m.ctx.F64(v.n)
	}
	if w == 0 {
		return m.ctx.Bool(v.n != 0)
	}
	return m.ctx.BV(v.n, w)
}

// ---- maps -----------------------------------------------------------------

type mapEntry struct {
	k, v    V
	deleted bool
}

type Map struct {
	entries []*mapEntry
	idx     map[any]*mapEntry // concrete keys
	nsym    int               // live entries with symbolic keys
	live    int
	kt      types.Type
}

func newMap(kt types.Type) *Map { return &Map{idx: map[any]*mapEntry{}, kt: kt} }

type hkInt struct{ n uint64 }
type hkIface struct {
	t int
	k any
}

// hashKey returns a comparable Go value for a concrete key; ok=false if symbolic.
func (m *Machine) hashKey(v V, t types.Type) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, _ := basicKind(t)
		if k.isStr {
			s, ok := concStr(v)
			return s, ok
		}
		if v.o != nil {
			return nil, false
		}
		return v.n, true
	case *types.Pointer, *types.Chan, *types.Signature:
		return v.o, true
	case *types.Interface:
		if v.o == nil {
			return nil, true
		}
		i := v.o.(*Iface)
		if !types.Comparable(i.t.t) {
			m.rtPanic("hash of unhashable type " + i.t.String())
		}
		k, ok := m.hashKey(i.v, i.t.t)
		return hkIface{i.t.id, k}, ok
	case *types.Struct:
		var sb strings.Builder
		a := v.o.(*Agg)
		for i := range a.e {
			k, ok := m.hashKey(a.e[i], u.Field(i).Type())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return sb.String(), true
	case *types.Array:
		var sb strings.Builder
		a := v.o.(*Agg)
		for i := range a.e {
			k, ok := m.hashKey(a.e[i], u.Elem())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return sb.String(), true
	}
	panic(engineErr("map key type " + t.String()))
}

func (m *Machine) mapFind(mp *Map, k V) (*mapEntry, any, bool) {
	hk, conc := m.hashKey(k, mp.kt)
	if conc {
		if e, ok := mp.idx[hk]; ok {
			return e, hk, true
		}
		if mp.nsym == 0 {
			return nil, hk, true
		}
	}
	for _, e := range mp.entries {
		if e.deleted {
			continue
		}
		eq := m.eqV(e.k, k, mp.kt)
		if m.branchV(eq) {
			return e, hk, conc
		}
	}
	return nil, hk, conc
}

func (m *Machine) mapSet(mp *Map, k, v V) {
	e, hk, conc := m.mapFind(mp, k)
	if e != nil {
		e.v = v
		return
	}
	e = &mapEntry{k: k, v: v}
	mp.entries = append(mp.entries, e)
	mp.live++
	if conc {
		mp.idx[hk] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *Map, k V) {
	e, _, _ := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.mapRemove(mp, e)
}

func (m *Machine) mapRemove(mp *Map, e *mapEntry) {
	e.deleted = true
	mp.live--
	if hk, conc := m.hashKey(e.k, mp.kt); conc {
		if mp.idx[hk] == e {
			delete(mp.idx, hk)
		} else {
			mp.nsym--
		}
	} else {
		mp.nsym--
	}
	out := make([]*mapEntry, 0, len(mp.entries))
	for _, x := range mp.entries {
		if !x.deleted {
			out = append(out, x)
		}
	}
	mp.entries = out
}

// ---- equality ----------------------------------------------------------------

func (m *Machine) eqV(a, b V, t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, ok := basicKind(t)
		if !ok {
			if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
				return bv(a.o == b.o)
			}
			panic(engineErr("eq of " + t.String()))
		}
		if k.isStr {
			return m.strEq(a, b)
		}
		if a.o == nil && b.o == nil {
			if k.float {
				return bv(f64(a) == f64(b))
			}
			return bv(a.n == b.n)
		}
		if k.float {
			if r, ok := m.fexact(token.EQL, a, b); ok {
				return r
			}
			return boolV(m.ctx.Bin(OFEq, m.toExpr(a, wF64), m.toExpr(b, wF64)))
		}
		return boolV(m.ctx.eqInt(m.toExpr(a, k.w), m.toExpr(b, k.w)))
	case *types.Pointer, *types.Chan:
		return bv(a.o == b.o)
	case *types.Signature, *types.Map, *types.Slice:
		if a.o != nil && b.o != nil {
			panic(engineErr("comparing " + t.String()))
		}
		return bv(a.o == nil && b.o == nil)
	case *types.Interface:
		return m.eqIface(a, b)
	case *types.Struct:
		x, y := a.o.(*Agg), b.o.(*Agg)
		r := m.ctx.tru
		for i := range x.e {
			if u.Field(i).Name() == "_" {
				continue
			}
			e := m.eqV(x.e[i], y.e[i], u.Field(i).Type())
			if e.o == nil {
				if e.n == 0 {
					return V{}
				}
				continue
			}
			r = m.ctx.And(r, e.o.(*Expr))
		}
		return boolV(r)
	case *types.Array:
		x, y := a.o.(*Agg), b.o.(*Agg)
		r := m.ctx.tru
		for i := range x.e {
			e := m.eqV(x.e[i], y.e[i], u.Elem())
			if e.o == nil {
				if e.n == 0 {
					return V{}
				}
				continue
			}
			r = m.ctx.And(r, e.o.(*Expr))
		}
		return boolV(r)
	}
	panic(engineErr("eq of " + t.String()))
}

func (m *Machine) eqIface(a, b V) V {
	if a.o == nil || b.o == nil {
		return bv(a.o == nil && b.o == nil)
	}
	x, y := a.o.(*Iface), b.o.(*Iface)
	if x.t != y.t {
		return V{}
	}
	if !types.Comparable(x.t.t) {
		m.rtPanic("comparing uncomparable type " + x.t.String())
	}
	return m.eqV(x.v, y.v, x.t.t)
}

func bv(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

// ---- methods -------------------------------------------------------------------

func (p *Prog) method(r *RT, f *types.Func) *Fn {
	id := f.Id()
	r.mu.RLock()
	fn, ok := r.methods[id]
	r.mu.RUnlock()
	if ok {
		return fn
	}
	p.buildMu.Lock()
	sf := p.prog.LookupMethod(r.t, f.Pkg(), f.Name())
	p.buildMu.Unlock()
	if sf == nil {
		panic(engineErr("no method " + f.Name() + " on " + r.String()))
	}
	fn = p.fn(sf)
	r.mu.Lock()
	r.methods[id] = fn
	r.mu.Unlock()
	return fn
}

func (p *Prog) implements(r *RT, it *RT) bool {
	r.mu.RLock()
	v, ok := r.impl[it]
	r.mu.RUnlock()
	if ok {
		return v
	}
	v = types.Implements(r.t, it.t.Underlying().(*types.Interface))
	r.mu.Lock()
	r.impl[it] = v
	r.mu.Unlock()
	return v
}

var _ = ssa.NaiveForm
