package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v   V // interface value
	pos string
	rt  bool // raised by the Go runtime
}

type endKind uint8

const (
	endAssume endKind = iota
	endBound
	endViolation
	endDepth
	endInfeasible
	endTimeout
)

// pathEnd unwinds the interpreter when the current path is finished early.
type pathEnd struct {
	kind endKind
	msg  string
}

// Machine interprets one path at a time; one per worker.
type Machine struct {
	p       *Prog
	ctx     *Ctx
	solver  *Solver
	ex      *Explorer
	globals []*V
	inited  map[string]bool // standard-library packages initialised

	stack  []V
	sp     int
	depth  int
	frames []*Frame
	steps  int64

	// current path
	prefix     []dec
	ppos       int
	trace      *dnode
	pc         []*Expr
	known      map[*Expr]bool
	model      []uint64
	inputs     []input
	obs        []obsRec
	reach      map[string]bool
	nasserts   int64
	pools      map[*V][]V
	files      map[string]V
	poolMode   int
	given      []*V  // what pools gave away to other goroutines
	watched    []any // state of package-level variables when pools became shared
	locked     bool  // code under test took a lock since
	mapOrder   bool
	fmtDepth   int
	incomplete string
	id         int
	nvars      int
	internal   int
}

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	w    uint8
	idx  int
	sgn  bool
}

type obsRec struct {
	label string
	v     V
	kind  string
}

func newMachine(p *Prog, ex *Explorer) *Machine {
	m := &Machine{p: p, ctx: newCtx(), ex: ex, inited: map[string]bool{}}
	m.solver = newSolver(m.ctx, ex.cache, &ex.stats, ex.solverPath, ex.timeoutMs)
	m.solver.deadline = ex.deadline
	m.stack = make([]V, 1<<20)
	return m
}

func (m *Machine) globalPtr(i int) *V {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	if g := m.globals[i]; g != nil {
		return g
	}
	g := m.p.global(i)
	v := new(V)
	*v = zeroOf(deref(g.Type()))
	m.globals[i] = v
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	if initPkgs[path] && !m.inited[path] {
		m.initStd(path)
	}
	return v
}

// initStd runs the initialiser of a pure standard-library package.
func (m *Machine) initStd(path string) {
	if m.inited[path] {
		return
	}
	m.inited[path] = true
	sp := m.p.pkgs[path]
	if sp == nil {
		return
	}
	steps := m.steps
	m.callBody(nil, m.p.fn(sp.Func("init")), nil)
	m.steps = steps
}

func (m *Machine) allocRegs(n int) []V {
	if m.sp+n > len(m.stack) {
		panic(pathEnd{endDepth, "stack exhausted"})
	}
	r := m.stack[m.sp : m.sp+n : m.sp+n]
	m.sp += n
	return r
}

const maxDepth = 6000

func (m *Machine) run(caller *Frame, fn *Fn, regs []V) V {
	d := m.depth
	if d >= maxDepth {
		panic(pathEnd{endDepth, "call depth"})
	}
	if d >= len(m.frames) {
		m.frames = append(m.frames, &Frame{})
	}
	fr := m.frames[d]
	*fr = Frame{m: m, fn: fn, regs: regs, caller: caller, defs: fr.defs[:0]}
	m.depth = d + 1
	if fn.hits == 0 {
		atomic.StoreInt32(&fn.hits, 1)
	}
	var ret V
	if fn.hasDefer {
		ret = m.execDefer(fr)
	} else {
		ret = m.exec(fr, 0)
	}
	m.depth = d
	m.sp -= len(regs)
	return ret
}

func (m *Machine) execDefer(fr *Frame) (ret V) {
	depth, sp := m.depth, m.sp
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		m.depth, m.sp = depth, sp
		fr.panic = tp
		fr.runDefers()
		if fr.panic != nil {
			panic(fr.panic)
		}
		m.depth, m.sp = depth, sp
		if fr.fn.recover >= 0 {
			ret = m.exec(fr, fr.fn.recover)
		} else {
			ret = zeroResults(fr.fn.sf)
		}
	}()
	return m.exec(fr, 0)
}

func zeroResults(f *ssa.Function) V {
	r := f.Signature.Results()
	switch r.Len() {
	case 0:
		return V{}
	case 1:
		return zeroOf(r.At(0).Type())
	}
	return zeroOf(r)
}

func (fr *Frame) runDefers() {
	for len(fr.defs) > 0 {
		d := fr.defs[len(fr.defs)-1]
		fr.defs = fr.defs[:len(fr.defs)-1]
		fr.callDeferred(d)
	}
}

func (fr *Frame) callDeferred(d deferred) {
	if fr.panic == nil {
		d.call()
		return
	}
	m := fr.m
	depth, sp := m.depth, m.sp
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(*targetPanic); ok {
				m.depth, m.sp = depth, sp
				fr.panic = tp
				return
			}
			panic(r)
		}
	}()
	d.call()
}

func (m *Machine) exec(fr *Frame, bi int) V {
	fn := fr.fn
	prev := -1
	var tmp [8]V
	for {
		b := &fn.blocks[bi]
		if len(b.phis) > 0 {
			e := 0
			for i, p := range b.preds {
				if p == prev {
					e = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(b.phis[0].edges[e])
			} else {
				t := tmp[:0]
				for i := range b.phis {
					t = append(t, fr.get(b.phis[i].edges[e]))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = t[i]
				}
			}
		}
		m.steps += int64(len(b.code)) + 1
		if m.steps > m.ex.maxSteps {
			panic(pathEnd{endBound, "step bound"})
		}
		for _, e := range b.code {
			e(fr)
		}
		prev = bi
		switch b.kind {
		case 0:
			bi = b.s0
		case 1:
			c := fr.get(b.cond)
			var t bool
			if c.o == nil {
				t = c.n != 0
			} else {
				fr.pos = b.pos
				t = m.branch(c.o.(*Expr))
			}
			if t {
				bi = b.s0
			} else {
				bi = b.s1
			}
		case 2:
			switch len(b.rets) {
			case 0:
				return V{}
			case 1:
				return fr.get(b.rets[0])
			}
			a := &Agg{e: make([]V, len(b.rets))}
			for i, o := range b.rets {
				a.e[i] = fr.get(o)
			}
			return V{o: a}
		case 3:
			fr.pos = b.pos
			v := fr.get(b.cond)
			if v.o == nil {
				m.rtPanic("panic called with nil argument")
			}
			panic(&targetPanic{v: v, pos: m.where()})
		}
	}
}

func (m *Machine) where() string {
	s := ""
	n := 0
	for d := m.depth - 1; d >= 0 && n < 6; d-- {
		fr := m.frames[d]
		if fr.fn == nil {
			continue
		}
		p := m.p.prog.Fset.Position(fr.pos)
		if n > 0 {
			s += " < "
		}
		s += fmt.Sprintf("%s (%s:%d)", fr.fn.sf.Name(), shortFile(p.Filename), p.Line)
		n++
	}
	return s
}

func shortFile(f string) string {
	k := 0
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			k++
			if k == 2 {
				return f[i+1:]
			}
		}
	}
	return f
}

func (m *Machine) rtPanic(msg string) {
	panic(&targetPanic{v: V{o: &Iface{m.p.rtErr, V{o: msg}}}, pos: m.where(), rt: true})
}

func (m *Machine) badPtr(v V) {
	if v.o == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(engineErr(fmt.Sprintf("dereference of %T at %s", v.o, m.where())))
}

// ---- symbolic control ---------------------------------------------------------

func (m *Machine) branchV(v V) bool {
	if v.o == nil {
		return v.n != 0
	}
	return m.branch(v.o.(*Expr))
}

func (m *Machine) addPC(e *Expr) {
	if e.isConst() {
		return
	}
	m.pc = append(m.pc, e)
	m.setKnown(e)
}

func (m *Machine) setKnown(e *Expr) {
	m.known[e] = true
	if e.op == OBAnd {
		m.setKnown(e.a)
		m.setKnown(e.b)
	}
	if e.op == OBNot && e.a.op == OBOr {
		m.setKnown(m.ctx.Not(e.a.a))
		m.setKnown(m.ctx.Not(e.a.b))
	}
}

// slice returns the constraints of the path condition that share variables
// (transitively) with e, plus e.
func (m *Machine) slice(e *Expr) []*Expr {
	vs := e.vars
	n := len(m.pc)
	used := make([]bool, n)
	for changed := true; changed; {
		changed = false
		for i, c := range m.pc {
			if !used[i] && c.vars.meets(vs) {
				used[i] = true
				nv := vs.or(c.vars)
				if nv != vs {
					vs = nv
					changed = true
				}
			}
		}
	}
	out := []*Expr{e}
	for i, c := range m.pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

func (m *Machine) branch(e *Expr) bool {
	if e.isConst() {
		return e.n != 0
	}
	if m.known[e] {
		return true
	}
	ne := m.ctx.Not(e)
	if m.known[ne] {
		return false
	}
	if m.ppos < len(m.prefix) {
		d := m.prefix[m.ppos]
		m.ppos++
		m.trace = &dnode{m.trace, d}
		switch d.kind {
		case dFree:
			if d.val != 0 {
				m.addPC(e)
				return true
			}
			m.addPC(ne)
			return false
		case dForced:
			if d.val != 0 {
				m.setKnown(e)
				return true
			}
			m.setKnown(ne)
			return false
		}
		panic(engineErr("replay divergence (branch) at " + m.where()))
	}
	v := m.ctx.eval(e, m.model) != 0
	take, other := e, ne
	if !v {
		take, other = ne, e
	}
	res, vals := m.solver.check(m.slice(other))
	atomic.AddInt64(&m.ex.branches, 1)
	var tv, ov uint64
	if v {
		tv = 1
	} else {
		ov = 1
	}
	switch res {
	case Unsat:
		m.setKnown(take)
		m.trace = &dnode{m.trace, dec{dForced, tv}}
		return v
	case Sat:
		m.ex.push(m, &item{path: &dnode{m.trace, dec{dFree, ov}}, model: mergeModel(m.model, vals)})
	default:
		m.ex.noteUnknown()
	}
	m.trace = &dnode{m.trace, dec{dFree, tv}}
	m.addPC(take)
	return v
}

func mergeModel(model []uint64, vals []varVal) []uint64 {
	n := append([]uint64(nil), model...)
	for _, vv := range vals {
		for len(n) <= vv.idx {
			n = append(n, 0)
		}
		n[vv.idx] = vv.v
	}
	return n
}

// concretise forks over the feasible values of e.
func (m *Machine) concretise(e *Expr) uint64 {
	if e.isConst() {
		return e.n
	}
	for {
		var v uint64
		if m.ppos < len(m.prefix) {
			d := m.prefix[m.ppos]
			m.ppos++
			if d.kind != dValue {
				panic(engineErr("replay divergence (value) at " + m.where()))
			}
			v = d.val
		} else {
			v = m.ctx.eval(e, m.model)
		}
		m.trace = &dnode{m.trace, dec{dValue, v}}
		var k *Expr
		if e.w == wF64 {
			k = m.ctx.mk(OEq, 0, 0, e, m.ctx.F64(v), nil)
		} else if e.w == 0 {
			k = e
			if v == 0 {
				k = m.ctx.Not(e)
			}
		} else {
			k = m.ctx.Bin(OEq, e, m.ctx.BV(v, e.w))
		}
		if m.branch(k) {
			return v
		}
	}
}

func (m *Machine) concV(v V, k nkind) V {
	if e, ok := v.o.(*Expr); ok {
		return V{n: canon(m.concretise(e), k)}
	}
	return v
}

func (m *Machine) concString(v V) string {
	switch s := v.o.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i := range s.b {
			b[i] = byte(m.concV(s.b[i], nkind{w: 8}).n)
		}
		return string(b)
	}
	panic(engineErr("concString"))
}

func (m *Machine) ext64(v V, k nkind) *Expr {
	e := m.toExpr(v, k.w)
	if k.signed {
		return m.ctx.SExt(e, 64)
	}
	return m.ctx.ZExt(e, 64)
}

func (m *Machine) indexExpr(i V, k nkind, n int) *Expr {
	e := m.ext64(i, k)
	if !m.branch(m.ctx.Bin(OUlt, e, m.ctx.BV(uint64(n), 64))) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return e
}

func (m *Machine) boundArg(v V, k nkind, limit int, msg string) int {
	if v.o == nil {
		if v.n > uint64(limit) {
			m.rtPanic(fmt.Sprintf(msg, int64(v.n), limit))
		}
		return int(v.n)
	}
	e := m.ext64(v, k)
	if !m.branch(m.ctx.Bin(OUle, e, m.ctx.BV(uint64(limit), 64))) {
		m.rtPanic("slice bounds out of range")
	}
	return int(m.concretise(e))
}

const maxAlloc = 1 << 24

func (m *Machine) sizeArg(v V, k nkind, msg string) int {
	if v.o == nil {
		if int64(v.n) < 0 || v.n > 1<<40 {
			m.rtPanic(msg)
		}
		if v.n > maxAlloc {
			panic(pathEnd{endBound, "allocation size"})
		}
		return int(v.n)
	}
	e := m.ext64(v, k)
	if !m.branch(m.ctx.Bin(OUle, e, m.ctx.BV(1<<40, 64))) {
		m.rtPanic(msg)
	}
	if !m.branch(m.ctx.Bin(OUle, e, m.ctx.BV(256, 64))) {
		panic(pathEnd{endBound, "allocation size"})
	}
	return int(m.concretise(e))
}

// selectV reads base[idx] for a scalar element type, idx known in bounds.
func (m *Machine) selectV(base []V, idx *Expr, k nkind) V {
	c := m.ctx
	if k.isStr {
		return base[m.concretise(idx)]
	}
	w := k.w
	if k.isBool {
		w = 0
	}
	n := len(base)
	last := m.toExpr(base[n-1], w)
	r := last
	for i := n - 2; i >= 0; {
		j := i
		e := m.toExpr(base[i], w)
		for j > 0 && m.toExpr(base[j-1], w) == e {
			j--
		}
		// elements j..i equal e
		if e != r {
			var cond *Expr
			if i == j {
				cond = c.Bin(OEq, idx, c.BV(uint64(i), 64))
			} else {
				cond = c.Bin(OUle, idx, c.BV(uint64(i), 64))
				if j > 0 {
					cond = c.And(cond, c.Bin(OUle, c.BV(uint64(j), 64), idx))
				}
			}
			r = c.Ite(cond, e, r)
		}
		i = j - 1
	}
	return exprV(r, k)
}

func (m *Machine) runeToString(e *Expr, k nkind) V {
	c := m.ctx
	w := e.w
	bvw := func(n uint64) *Expr { return c.BV(n, w) }
	if w < 32 {
		e = c.ZExt(e, 32)
		w = 32
	}
	by := func(x *Expr) V { return exprV(c.Trunc(x, 8), nkind{w: 8}) }
	sh := func(n uint64) *Expr { return c.Bin(OLShr, e, bvw(n)) }
	cont := func(x *Expr) V {
		return by(c.Bin(OOr, bvw(0x80), c.Bin(OAnd, x, bvw(0x3f))))
	}
	if m.branch(c.Bin(OUlt, e, bvw(0x80))) {
		return mkStr([]V{by(e)})
	}
	if m.branch(c.Bin(OUlt, e, bvw(0x800))) {
		return mkStr([]V{by(c.Bin(OOr, bvw(0xc0), sh(6))), cont(e)})
	}
	bad := c.Or(c.Bin(OUlt, bvw(0x10ffff), e), c.And(c.Bin(OUle, bvw(0xd800), e), c.Bin(OUle, e, bvw(0xdfff))))
	if m.branch(bad) {
		return V{o: "\ufffd"}
	}
	if m.branch(c.Bin(OUlt, e, bvw(0x10000))) {
		return mkStr([]V{by(c.Bin(OOr, bvw(0xe0), sh(12))), cont(sh(6)), cont(e)})
	}
	return mkStr([]V{by(c.Bin(OOr, bvw(0xf0), sh(18))), cont(sh(12)), cont(sh(6)), cont(e)})
}

type mapIter struct {
	ents []*mapEntry
	i    int
}

func (it *mapIter) next(m *Machine) V {
	if m.mapOrder && it.i == 0 && len(it.ents) > 1 {
		// nondeterministic order: a symbolic choice per position
		n := len(it.ents)
		for i := 0; i < n-1; i++ {
			j := i + m.choose("maporder", n-i)
			it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
		}
	}
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.deleted {
			continue
		}
		return V{o: &Agg{[]V{{n: 1}, e.k, copyV(e.v)}}}
	}
	return V{o: &Agg{[]V{{}, {}, {}}}}
}

// choose creates a symbolic integer 0..n-1 (not part of the harness inputs
// replayed natively) and forks over it.
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	e := m.newVar(name, "internal", 16, false)
	m.assume(m.ctx.Bin(OUlt, e, m.ctx.BV(uint64(n), 16)))
	return int(m.concretise(e))
}

type strIter struct {
	s V
	i int
}

func (it *strIter) next(m *Machine) V {
	n := strLen(it.s)
	if it.i >= n {
		return V{o: &Agg{[]V{{}, {}, {}}}}
	}
	i := it.i
	var r V
	size := 1
	b := strAt(it.s, i)
	ascii := false
	if b.o == nil {
		ascii = b.n < 0x80
	} else {
		ascii = m.branch(m.ctx.Bin(OUlt, b.o.(*Expr), m.ctx.BV(0x80, 8)))
	}
	if ascii {
		if b.o == nil {
			r = b
		} else {
			r = V{o: m.ctx.ZExt(b.o.(*Expr), 32)}
		}
	} else if s, ok := concStr(it.s); ok {
		for j, c := range s[i:] {
			if j == 0 {
				r = V{n: uint64(int64(c))}
				size = len(string(c))
				if c == 0xfffd && !hasPrefix(s[i:], "\ufffd") {
					size = 1
				}
			}
			break
		}
	} else {
		f := m.p.pkgs["unicode/utf8"].Func("DecodeRuneInString")
		a := m.callV(nil, m.p.fn(f), []V{strSlice(it.s, i, n)}, nil).o.(*Agg)
		r = a.e[0]
		size = int(m.concV(a.e[1], nkind{w: 64, signed: true}).n)
	}
	it.i += size
	return V{o: &Agg{[]V{{n: 1}, {n: uint64(i)}, r}}}
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// ---- builtins ------------------------------------------------------------------

func (c *compiler) builtin(f *ssa.Builtin, cc *ssa.CallCommon, args []opnd, pos token.Pos) func(fr *Frame) V {
	switch f.Name() {
	case "len":
		a := args[0]
		return func(fr *Frame) V { return V{n: uint64(lenOf(fr.get(a)))} }
	case "cap":
		a := args[0]
		return func(fr *Frame) V {
			switch o := fr.get(a).o.(type) {
			case nil:
				return V{}
			case *Slice:
				return V{n: uint64(cap(o.s))}
			case *Agg:
				return V{n: uint64(len(o.e))}
			}
			panic(engineErr("cap"))
		}
	case "append":
		a, b := args[0], args[1]
		st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			panic(engineErr("append to " + cc.Args[0].Type().String()))
		}
		el := elemSize(st.Elem())
		et := st.Elem()
		nz := needsZero(et)
		return func(fr *Frame) V {
			x, y := fr.get(a), fr.get(b)
			var add []V
			switch o := y.o.(type) {
			case nil:
			case *Slice:
				add = o.s
			case string, *SymStr:
				add = strBytes(y)
			default:
				panic(engineErr("append arg"))
			}
			if x.o == nil && len(add) == 0 {
				return V{}
			}
			var s []V
			if x.o != nil {
				s = x.o.(*Slice).s
			}
			n := len(s) + len(add)
			if n > cap(s) {
				t := make([]V, len(s), growCap(n, cap(s), el))
				if nz {
					for i := range s {
						t[i] = copyV(s[i])
					}
					u := t[:cap(t)]
					for i := len(s); i < len(u); i++ {
						u[i] = zeroOf(et)
					}
				} else {
					copy(t, s)
				}
				s = t
			}
			k := len(s)
			s = s[:n]
			if nz {
				tmp := make([]V, len(add))
				for i := range add {
					tmp[i] = copyV(add[i])
				}
				for i := range tmp {
					storeV(&s[k+i], tmp[i])
				}
			} else {
				copy(s[k:], add)
			}
			return V{o: &Slice{s: s, el: el}}
		}
	case "copy":
		a, b := args[0], args[1]
		return func(fr *Frame) V {
			x, y := fr.get(a), fr.get(b)
			var d, s []V
			if x.o != nil {
				d = x.o.(*Slice).s
			}
			switch o := y.o.(type) {
			case nil:
			case *Slice:
				s = o.s
			default:
				s = strBytes(y)
			}
			n := min(len(d), len(s))
			if n > 0 {
				if _, agg := s[0].o.(*Agg); agg {
					t := make([]V, n)
					for i := range t {
						t[i] = copyV(s[i])
					}
					for i := range t {
						storeV(&d[i], t[i])
					}
				} else {
					copy(d, s)
				}
			}
			return V{n: uint64(n)}
		}
	case "delete":
		a, b := args[0], args[1]
		return func(fr *Frame) V {
			fr.pos = pos
			if o := fr.get(a).o; o != nil {
				fr.m.mapDelete(o.(*Map), fr.get(b))
			}
			return V{}
		}
	case "clear":
		a := args[0]
		var et types.Type
		if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			et = st.Elem()
		}
		return func(fr *Frame) V {
			switch o := fr.get(a).o.(type) {
			case nil:
			case *Map:
				*o = *newMap(o.kt)
			case *Slice:
				if et == nil {
					panic(engineErr("clear slice"))
				}
				for i := range o.s {
					storeV(&o.s[i], zeroOf(et))
				}
			}
			return V{}
		}
	case "recover":
		return func(fr *Frame) V {
			c := fr.caller
			if c == nil || c.panic == nil {
				return V{}
			}
			v := c.panic.v
			c.panic = nil
			return v
		}
	case "print", "println":
		return func(fr *Frame) V { return V{} }
	case "min", "max":
		k, _ := basicKind(cc.Args[0].Type())
		isMin := f.Name() == "min"
		return func(fr *Frame) V {
			r := fr.get(args[0])
			for _, o := range args[1:] {
				y := fr.get(o)
				var lt V
				if k.float {
					lt = fr.m.floatOp(token.LSS, y, r, k)
					if !isMin {
						lt = fr.m.floatOp(token.LSS, r, y, k)
					}
				} else if k.isStr {
					lt = fr.m.strLess(y, r)
					if !isMin {
						lt = fr.m.strLess(r, y)
					}
				} else {
					lt = fr.m.intOp(token.LSS, y, r, k, k)
					if !isMin {
						lt = fr.m.intOp(token.LSS, r, y, k, k)
					}
				}
				if fr.m.branchV(lt) {
					r = y
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		a := args[0]
		return func(fr *Frame) V {
			v := fr.get(a)
			if v.o == nil {
				fr.m.rtPanic("value method called using nil pointer")
			}
			return v
		}
	}
	panic(engineErr("builtin " + f.Name() + " in " + c.f.name))
}

func lenOf(v V) int {
	switch o := v.o.(type) {
	case nil:
		return 0
	case string:
		return len(o)
	case *SymStr:
		return len(o.b)
	case *Slice:
		return len(o.s)
	case *Map:
		return o.live
	case *Agg:
		return len(o.e)
	case *V:
		return len(o.o.(*Agg).e)
	}
	panic(engineErr(fmt.Sprintf("len of %T", v.o)))
}

func growCap(newLen, oldCap, el int) int {
	if el == 0 {
		return newLen
	}
	nc := oldCap
	dbl := nc + nc
	switch {
	case newLen > dbl:
		nc = newLen
	case oldCap < 256:
		nc = dbl
	default:
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	return roundupsize(nc*el) / el
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n == 0 {
		return 0
	}
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}
