package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opnd int32 // >=0 register; <0: ^o: even -> const, odd -> global

type execFn func(fr *Frame)

type block struct {
	code  []execFn
	phis  []phi
	preds []int
	kind  uint8 // 0 jump 1 if 2 return 3 panic
	cond  opnd
	s0    int
	s1    int
	rets  []opnd
	pos   token.Pos
}

type phi struct {
	dst   int
	edges []opnd
}

type Fn struct {
	p        *Prog
	sf       *ssa.Function
	name     string
	pkg      string
	intr     intrinsic
	once     sync.Once
	err      error
	blocks   []block
	nregs    int
	nparams  int
	consts   []V
	hasDefer bool
	recover  int // recover block or -1
	named    []int
	hits     int32
	nres     int
}

type Frame struct {
	m         *Machine
	fn        *Fn
	regs      []V
	defs      []deferred
	panic     *targetPanic // panic in flight while running defers
	recovered bool
	caller    *Frame
	pos       token.Pos
}

type deferred struct {
	call func()
}

func (fr *Frame) get(o opnd) V {
	if o >= 0 {
		return fr.regs[o]
	}
	k := ^o
	if k&1 == 0 {
		return fr.fn.consts[k>>1]
	}
	return V{o: fr.m.globalPtr(int(k >> 1))}
}

type compiler struct {
	f    *Fn
	regs map[ssa.Value]int
	cmap map[*ssa.Const]opnd
	n    int
}

func (f *Fn) compile() error {
	f.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(error); ok {
					f.err = e
				} else {
					f.err = engineErr(fmt.Sprint(r))
				}
			}
		}()
		f.doCompile()
	})
	return f.err
}

func (f *Fn) doCompile() {
	sf := f.sf
	if sf.Blocks == nil {
		f.p.buildMu.Lock()
		if sf.Pkg != nil && (isTarget(f.pkg) || srcPkgs[f.pkg]) {
			sf.Pkg.Build()
		} else if o := sf.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
		f.p.buildMu.Unlock()
	}
	if sf.Blocks == nil {
		panic(engineErr("no body: " + f.name))
	}
	if f.pkg != "" && !isTarget(f.pkg) && !srcPkgs[f.pkg] && f.pkg != "runtime" {
		panic(engineErr("not modelled: " + f.name))
	}
	c := &compiler{f: f, regs: map[ssa.Value]int{}, cmap: map[*ssa.Const]opnd{}}
	for _, p := range sf.Params {
		c.regs[p] = c.n
		c.n++
	}
	for _, p := range sf.FreeVars {
		c.regs[p] = c.n
		c.n++
	}
	f.nparams = len(sf.Params)
	f.nres = sf.Signature.Results().Len()
	for _, b := range sf.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = c.n
				c.n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	f.blocks = make([]block, len(sf.Blocks))
	for i, b := range sf.Blocks {
		bl := &f.blocks[i]
		for _, p := range b.Preds {
			bl.preds = append(bl.preds, p.Index)
		}
		for _, in := range b.Instrs {
			c.tryInstr(bl, b, in)
		}
	}
	f.recover = -1
	if sf.Recover != nil {
		f.recover = sf.Recover.Index
	}
	f.nregs = c.n
}

func (c *compiler) opn(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		if o, ok := c.cmap[v]; ok {
			return o
		}
		o := c.konst(constVal(v))
		c.cmap[v] = o
		return o
	case *ssa.Function:
		return c.konst(V{o: &Closure{fn: c.f.p.fn(v)}})
	case *ssa.Global:
		i := c.f.p.globalIdx(v)
		return opnd(^(i<<1 | 1))
	case *ssa.Builtin:
		return c.konst(V{})
	}
	r, ok := c.regs[v]
	if !ok {
		panic(engineErr(fmt.Sprintf("no register for %s in %s", v.Name(), c.f.name)))
	}
	return opnd(r)
}

func (c *compiler) konst(v V) opnd {
	c.f.consts = append(c.f.consts, v)
	return opnd(^((len(c.f.consts) - 1) << 1))
}

func constVal(k *ssa.Const) V {
	if k.Value == nil {
		return zeroOf(k.Type())
	}
	t := k.Type().Underlying()
	nk, ok := basicKind(t)
	if !ok {
		panic(engineErr("const of type " + k.Type().String()))
	}
	switch {
	case nk.isBool:
		return bv(constant.BoolVal(k.Value))
	case nk.isStr:
		if k.Value.Kind() == constant.String {
			return V{o: constant.StringVal(k.Value)}
		}
		return V{o: string(rune(k.Int64()))}
	case nk.float:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if nk.w == 32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case nk.signed:
		return V{n: canon(uint64(k.Int64()), nk)}
	default:
		return V{n: canon(k.Uint64(), nk)}
	}
}

func (c *compiler) emit(b *block, e execFn) { b.code = append(b.code, e) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(engineErr("deref " + t.String()))
}

// tryInstr compiles an instruction; one that is not modelled is an error only if
// it is executed.
func (c *compiler) tryInstr(b *block, sb *ssa.BasicBlock, in ssa.Instruction) {
	switch in.(type) {
	case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
		c.instr(b, sb, in)
		return
	}
	defer func() {
		if r := recover(); r != nil {
			c.emit(b, func(fr *Frame) { panic(r) })
		}
	}()
	c.instr(b, sb, in)
}

func (c *compiler) instr(b *block, sb *ssa.BasicBlock, in ssa.Instruction) {
	p := c.f.p
	pos := in.Pos()
	var dst int
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		ph := phi{dst: dst}
		for _, e := range in.Edges {
			ph.edges = append(ph.edges, c.opn(e))
		}
		b.phis = append(b.phis, ph)
	case *ssa.Alloc:
		t := deref(in.Type())
		if needsZero(t) {
			c.emit(b, func(fr *Frame) {
				v := new(V)
				*v = zeroOf(t)
				fr.regs[dst] = V{o: v}
			})
		} else {
			c.emit(b, func(fr *Frame) { fr.regs[dst] = V{o: new(V)} })
		}
	case *ssa.BinOp:
		c.binop(b, in, dst)
	case *ssa.UnOp:
		c.unop(b, in, dst)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		x := c.opn((*in.Operands(nil)[0]))
		c.emit(b, func(fr *Frame) { fr.regs[dst] = fr.get(x) })
	case *ssa.Convert:
		c.convert(b, in, dst)
	case *ssa.MultiConvert:
		panic(engineErr("MultiConvert in " + c.f.name))
	case *ssa.MakeInterface:
		x := c.opn(in.X)
		rt := p.rts.get(in.X.Type())
		c.emit(b, func(fr *Frame) { fr.regs[dst] = V{o: &Iface{rt, fr.get(x)}} })
	case *ssa.MakeClosure:
		fn := p.fn(in.Fn.(*ssa.Function))
		var ops []opnd
		for _, x := range in.Bindings {
			ops = append(ops, c.opn(x))
		}
		c.emit(b, func(fr *Frame) {
			env := make([]V, len(ops))
			for i, o := range ops {
				env[i] = fr.get(o)
			}
			fr.regs[dst] = V{o: &Closure{fn: fn, env: env}}
		})
	case *ssa.MakeMap:
		kt := in.Type().Underlying().(*types.Map).Key()
		c.emit(b, func(fr *Frame) { fr.regs[dst] = V{o: newMap(kt)} })
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		el := elemSize(et)
		ln, cp := c.opn(in.Len), c.opn(in.Cap)
		nz := needsZero(et)
		lk, _ := basicKind(in.Len.Type())
		ck, _ := basicKind(in.Cap.Type())
		c.emit(b, func(fr *Frame) {
			m := fr.m
			fr.pos = pos
			lv, cv := fr.get(ln), fr.get(cp)
			l := m.sizeArg(lv, lk, "makeslice: len out of range")
			k := l
			if cp != ln {
				k = m.sizeArg(cv, ck, "makeslice: cap out of range")
			}
			if l > k {
				m.rtPanic("makeslice: cap out of range")
			}
			s := make([]V, k)
			if nz {
				for i := range s {
					s[i] = zeroOf(et)
				}
			}
			fr.regs[dst] = V{o: &Slice{s: s[:l], el: el}}
		})
	case *ssa.Slice:
		c.slice(b, in, dst)
	case *ssa.FieldAddr:
		x := c.opn(in.X)
		f := in.Field
		c.emit(b, func(fr *Frame) {
			pv, ok := fr.get(x).o.(*V)
			if !ok {
				fr.pos = pos
				fr.m.badPtr(fr.get(x))
			}
			fr.regs[dst] = V{o: &pv.o.(*Agg).e[f]}
		})
	case *ssa.Field:
		x := c.opn(in.X)
		f := in.Field
		c.emit(b, func(fr *Frame) { fr.regs[dst] = fr.get(x).o.(*Agg).e[f] })
	case *ssa.IndexAddr:
		x, ix := c.opn(in.X), c.opn(in.Index)
		ik, _ := basicKind(in.Index.Type())
		ek, scalar := basicKind(deref(in.Type()))
		scalar = scalar && !ek.isStr
		c.emit(b, func(fr *Frame) {
			m := fr.m
			var base []V
			switch o := fr.get(x).o.(type) {
			case nil:
				fr.pos = pos
				if _, isp := in.X.Type().Underlying().(*types.Pointer); isp {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
			case *Slice:
				base = o.s
			case *V:
				base = o.o.(*Agg).e
			default:
				panic(engineErr(fmt.Sprintf("indexaddr %T", o)))
			}
			i := fr.get(ix)
			if i.o == nil {
				k := i.n
				if k >= uint64(len(base)) {
					fr.pos = pos
					m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(k), len(base)))
				}
				fr.regs[dst] = V{o: &base[k]}
				return
			}
			fr.pos = pos
			e := m.indexExpr(i, ik, len(base))
			if !scalar {
				fr.regs[dst] = V{o: &base[m.concretise(e)]}
				return
			}
			fr.regs[dst] = V{o: &SymPtr{base, e}}
		})
	case *ssa.Index:
		x, ix := c.opn(in.X), c.opn(in.Index)
		ik, _ := basicKind(in.Index.Type())
		isStr := false
		if bk, ok := basicKind(in.X.Type()); ok && bk.isStr {
			isStr = true
		}
		c.emit(b, func(fr *Frame) {
			m := fr.m
			xv, i := fr.get(x), fr.get(ix)
			if isStr {
				n := strLen(xv)
				if i.o == nil {
					if i.n >= uint64(n) {
						fr.pos = pos
						m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), n))
					}
					fr.regs[dst] = strAt(xv, int(i.n))
					return
				}
				fr.pos = pos
				e := m.indexExpr(i, ik, n)
				fr.regs[dst] = m.selectV(strBytes(xv), e, nkind{w: 8})
				return
			}
			a := xv.o.(*Agg)
			if i.o == nil {
				if i.n >= uint64(len(a.e)) {
					fr.pos = pos
					m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), len(a.e)))
				}
				fr.regs[dst] = a.e[i.n]
				return
			}
			fr.pos = pos
			e := m.indexExpr(i, ik, len(a.e))
			k := m.concretise(e)
			fr.regs[dst] = a.e[k]
		})
	case *ssa.Lookup:
		x, ix := c.opn(in.X), c.opn(in.Index)
		commaOk := in.CommaOk
		mt, isMap := in.X.Type().Underlying().(*types.Map)
		if !isMap {
			ik, _ := basicKind(in.Index.Type())
			c.emit(b, func(fr *Frame) {
				m := fr.m
				xv, i := fr.get(x), fr.get(ix)
				n := strLen(xv)
				if i.o == nil {
					if i.n >= uint64(n) {
						fr.pos = pos
						m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), n))
					}
					fr.regs[dst] = strAt(xv, int(i.n))
					return
				}
				fr.pos = pos
				e := m.indexExpr(i, ik, n)
				fr.regs[dst] = m.selectV(strBytes(xv), e, nkind{w: 8})
			})
			return
		}
		vt := mt.Elem()
		c.emit(b, func(fr *Frame) {
			var v V
			ok := false
			fr.pos = pos
			if mo := fr.get(x).o; mo != nil {
				if e, _, _ := fr.m.mapFind(mo.(*Map), fr.get(ix)); e != nil {
					v, ok = copyV(e.v), true
				}
			}
			if !ok {
				v = zeroOf(vt)
			}
			if commaOk {
				fr.regs[dst] = V{o: &Agg{[]V{v, bv(ok)}}}
			} else {
				fr.regs[dst] = v
			}
		})
	case *ssa.MapUpdate:
		x, k, v := c.opn(in.Map), c.opn(in.Key), c.opn(in.Value)
		c.emit(b, func(fr *Frame) {
			fr.pos = pos
			mo := fr.get(x).o
			if mo == nil {
				fr.m.rtPanic("assignment to entry in nil map")
			}
			fr.m.mapSet(mo.(*Map), fr.get(k), copyV(fr.get(v)))
		})
	case *ssa.Range:
		x := c.opn(in.X)
		_, isMap := in.X.Type().Underlying().(*types.Map)
		c.emit(b, func(fr *Frame) {
			if isMap {
				it := &mapIter{}
				if mo := fr.get(x).o; mo != nil {
					it.ents = append([]*mapEntry(nil), mo.(*Map).entries...)
				}
				fr.regs[dst] = V{o: it}
			} else {
				fr.regs[dst] = V{o: &strIter{s: fr.get(x)}}
			}
		})
	case *ssa.Next:
		x := c.opn(in.Iter)
		c.emit(b, func(fr *Frame) {
			fr.pos = pos
			switch it := fr.get(x).o.(type) {
			case *mapIter:
				fr.regs[dst] = it.next(fr.m)
			case *strIter:
				fr.regs[dst] = it.next(fr.m)
			}
		})
	case *ssa.Extract:
		x := c.opn(in.Tuple)
		i := in.Index
		c.emit(b, func(fr *Frame) { fr.regs[dst] = fr.get(x).o.(*Agg).e[i] })
	case *ssa.Store:
		a, v := c.opn(in.Addr), c.opn(in.Val)
		c.emit(b, func(fr *Frame) {
			switch pv := fr.get(a).o.(type) {
			case *V:
				val := fr.get(v)
				if _, agg := val.o.(*Agg); agg {
					storeV(pv, val)
				} else {
					*pv = val
				}
			case *SymPtr:
				fr.pos = pos
				storeV(&pv.base[fr.m.concretise(pv.idx)], fr.get(v))
			default:
				fr.pos = pos
				fr.m.badPtr(fr.get(a))
			}
		})
	case *ssa.TypeAssert:
		c.typeAssert(b, in, dst)
	case *ssa.Call:
		call := c.call(&in.Call, pos)
		c.emit(b, func(fr *Frame) {
			fr.regs[dst] = call(fr)
		})
	case *ssa.Defer:
		prep := c.prepCall(&in.Call, pos)
		c.emit(b, func(fr *Frame) {
			fr.defs = append(fr.defs, deferred{prep(fr)})
		})
	case *ssa.RunDefers:
		c.emit(b, func(fr *Frame) { fr.runDefers() })
	case *ssa.Go:
		panic(engineErr("goroutine in " + c.f.name))
	case *ssa.Jump:
		b.kind, b.s0 = 0, sb.Succs[0].Index
	case *ssa.If:
		b.kind, b.cond, b.s0, b.s1, b.pos = 1, c.opn(in.Cond), sb.Succs[0].Index, sb.Succs[1].Index, pos
		if !b.pos.IsValid() {
			b.pos = in.Cond.Pos()
		}
	case *ssa.Return:
		b.kind = 2
		for _, r := range in.Results {
			b.rets = append(b.rets, c.opn(r))
		}
	case *ssa.Panic:
		b.kind, b.cond, b.pos = 3, c.opn(in.X), pos
	default:
		panic(engineErr(fmt.Sprintf("instruction %T in %s", in, c.f.name)))
	}
}

var sizes = types.SizesFor("gc", "amd64")

func elemSize(t types.Type) int { return int(sizes.Sizeof(t)) }

func f64(v V) float64 { return math.Float64frombits(v.n) }

func (c *compiler) binop(b *block, in *ssa.BinOp, dst int) {
	x, y := c.opn(in.X), c.opn(in.Y)
	pos := in.Pos()
	t := in.X.Type()
	k, isBasic := basicKind(t)
	op := in.Op
	if op == token.EQL || op == token.NEQ {
		neg := op == token.NEQ
		if isBasic && !k.isStr && !k.float {
			c.emit(b, func(fr *Frame) {
				a, d := fr.get(x), fr.get(y)
				if a.o == nil && d.o == nil {
					fr.regs[dst] = bv((a.n == d.n) != neg)
					return
				}
				m := fr.m
				e := m.ctx.eqInt(m.toExpr(a, k.w), m.toExpr(d, k.w))
				if neg {
					e = m.ctx.Not(e)
				}
				fr.regs[dst] = boolV(e)
			})
			return
		}
		_, xi := in.X.Type().Underlying().(*types.Interface)
		_, yi := in.Y.Type().Underlying().(*types.Interface)
		if xi != yi {
			// comparison of an interface with a concrete value
			p := c.f.p
			rt := p.rts.get(in.Y.Type())
			if !xi {
				rt = p.rts.get(in.X.Type())
			}
			c.emit(b, func(fr *Frame) {
				fr.pos = pos
				a, d := fr.get(x), fr.get(y)
				if xi {
					d = V{o: &Iface{rt, d}}
				} else {
					a = V{o: &Iface{rt, a}}
				}
				fr.regs[dst] = fr.m.notIf(fr.m.eqIface(a, d), neg)
			})
			return
		}
		c.emit(b, func(fr *Frame) {
			fr.pos = pos
			fr.regs[dst] = fr.m.notIf(fr.m.eqV(fr.get(x), fr.get(y), t), neg)
		})
		return
	}
	if !isBasic {
		panic(engineErr("binop on " + t.String()))
	}
	if k.isStr {
		switch op {
		case token.ADD:
			c.emit(b, func(fr *Frame) { fr.regs[dst] = strConcat(fr.get(x), fr.get(y)) })
		case token.LSS:
			c.emit(b, func(fr *Frame) { fr.regs[dst] = fr.m.strLess(fr.get(x), fr.get(y)) })
		case token.GTR:
			c.emit(b, func(fr *Frame) { fr.regs[dst] = fr.m.strLess(fr.get(y), fr.get(x)) })
		case token.LEQ:
			c.emit(b, func(fr *Frame) { fr.regs[dst] = fr.m.notIf(fr.m.strLess(fr.get(y), fr.get(x)), true) })
		case token.GEQ:
			c.emit(b, func(fr *Frame) { fr.regs[dst] = fr.m.notIf(fr.m.strLess(fr.get(x), fr.get(y)), true) })
		default:
			panic(engineErr("string op " + op.String()))
		}
		return
	}
	if k.float {
		c.emit(b, func(fr *Frame) { fr.regs[dst] = fr.m.floatOp(op, fr.get(x), fr.get(y), k) })
		return
	}
	if k.isBool {
		c.emit(b, func(fr *Frame) {
			a, d := fr.m.toExpr(fr.get(x), 0), fr.m.toExpr(fr.get(y), 0)
			switch op {
			case token.AND, token.LAND:
				fr.regs[dst] = boolV(fr.m.ctx.And(a, d))
			case token.OR, token.LOR:
				fr.regs[dst] = boolV(fr.m.ctx.Or(a, d))
			default:
				panic(engineErr("bool op " + op.String()))
			}
		})
		return
	}
	yk, _ := basicKind(in.Y.Type())
	switch op {
	case token.ADD:
		c.emit(b, func(fr *Frame) {
			a, d := fr.get(x), fr.get(y)
			if a.o == nil && d.o == nil {
				fr.regs[dst] = V{n: canon(a.n+d.n, k)}
				return
			}
			fr.regs[dst] = fr.m.intOp(op, a, d, k, yk)
		})
	case token.LSS:
		c.emit(b, func(fr *Frame) {
			a, d := fr.get(x), fr.get(y)
			if a.o == nil && d.o == nil {
				if k.signed {
					fr.regs[dst] = bv(int64(a.n) < int64(d.n))
				} else {
					fr.regs[dst] = bv(a.n < d.n)
				}
				return
			}
			fr.regs[dst] = fr.m.intOp(op, a, d, k, yk)
		})
	default:
		c.emit(b, func(fr *Frame) {
			fr.pos = pos
			fr.regs[dst] = fr.m.intOp(op, fr.get(x), fr.get(y), k, yk)
		})
	}
}

func (m *Machine) notIf(v V, neg bool) V {
	if !neg {
		return v
	}
	if v.o == nil {
		return V{n: v.n ^ 1}
	}
	return boolV(m.ctx.Not(v.o.(*Expr)))
}

func (m *Machine) intOp(op token.Token, a, b V, k, yk nkind) V {
	w := k.w
	if a.o == nil && b.o == nil {
		x, y := a.n, b.n
		sxv, syv := int64(x), int64(y)
		switch op {
		case token.ADD:
			return V{n: canon(x+y, k)}
		case token.SUB:
			return V{n: canon(x-y, k)}
		case token.MUL:
			return V{n: canon(x*y, k)}
		case token.QUO, token.REM:
			if y == 0 {
				m.rtPanic("integer divide by zero")
			}
			if k.signed {
				if syv == -1 {
					if op == token.REM {
						return V{}
					}
					return V{n: canon(-x, k)}
				}
				if op == token.QUO {
					return V{n: canon(uint64(sxv/syv), k)}
				}
				return V{n: canon(uint64(sxv%syv), k)}
			}
			if op == token.QUO {
				return V{n: x / y}
			}
			return V{n: x % y}
		case token.AND:
			return V{n: canon(x&y, k)}
		case token.OR:
			return V{n: canon(x|y, k)}
		case token.XOR:
			return V{n: canon(x^y, k)}
		case token.AND_NOT:
			return V{n: canon(x&^y, k)}
		case token.SHL, token.SHR:
			if yk.signed && syv < 0 {
				m.rtPanic("negative shift amount")
			}
			if op == token.SHL {
				if y >= 64 {
					return V{}
				}
				return V{n: canon(x<<y, k)}
			}
			if k.signed {
				if y > 63 {
					y = 63
				}
				return V{n: canon(uint64(sxv>>y), k)}
			}
			if y >= 64 {
				return V{}
			}
			return V{n: x >> y}
		case token.LSS:
			if k.signed {
				return bv(sxv < syv)
			}
			return bv(x < y)
		case token.LEQ:
			if k.signed {
				return bv(sxv <= syv)
			}
			return bv(x <= y)
		case token.GTR:
			if k.signed {
				return bv(sxv > syv)
			}
			return bv(x > y)
		case token.GEQ:
			if k.signed {
				return bv(sxv >= syv)
			}
			return bv(x >= y)
		}
		panic(engineErr("int op " + op.String()))
	}
	c := m.ctx
	x := m.toExpr(a, w)
	if op == token.SHL || op == token.SHR {
		y := m.toExpr(b, yk.w)
		if yk.signed {
			if m.branch(c.Bin(OSlt, y, c.BV(0, yk.w))) {
				m.rtPanic("negative shift amount")
			}
		}
		if yk.w > w {
			ov := c.Not(c.Bin(OUlt, y, c.BV(uint64(w), yk.w)))
			y = c.Ite(ov, c.BV(uint64(w), w), c.Trunc(y, w))
		} else {
			y = c.ZExt(y, w)
		}
		if op == token.SHL {
			return exprV(c.Bin(OShl, x, y), k)
		}
		if k.signed {
			return exprV(c.Bin(OAShr, x, y), k)
		}
		return exprV(c.Bin(OLShr, x, y), k)
	}
	y := m.toExpr(b, w)
	lt, le := OUlt, OUle
	if k.signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		return exprV(c.Bin(OAdd, x, y), k)
	case token.SUB:
		return exprV(c.Bin(OSub, x, y), k)
	case token.MUL:
		if k.signed {
			return exprV(c.narrow(OMul, x, y), k)
		}
		return exprV(c.Bin(OMul, x, y), k)
	case token.QUO, token.REM:
		if b.o != nil {
			if m.branch(c.Bin(OEq, y, c.BV(0, w))) {
				m.rtPanic("integer divide by zero")
			}
		} else if b.n == 0 {
			m.rtPanic("integer divide by zero")
		}
		// small non-negative operands: divide at a narrower width
		if z := zx(x); z != nil && y.isConst() && y.n <= mask(z.w) && (!k.signed || sx(y.n, w) > 0) {
			op2 := OUDiv
			if op == token.REM {
				op2 = OURem
			}
			return exprV(c.ZExt(c.Bin(op2, z, c.BV(y.n, z.w)), w), k)
		}
		switch {
		case k.signed && op == token.QUO:
			return exprV(c.narrow(OSDiv, x, y), k)
		case k.signed:
			return exprV(c.narrow(OSRem, x, y), k)
		case op == token.QUO:
			return exprV(c.Bin(OUDiv, x, y), k)
		default:
			return exprV(c.Bin(OURem, x, y), k)
		}
	case token.AND:
		return exprV(c.Bin(OAnd, x, y), k)
	case token.OR:
		return exprV(c.Bin(OOr, x, y), k)
	case token.XOR:
		return exprV(c.Bin(OXor, x, y), k)
	case token.AND_NOT:
		return exprV(c.Bin(OAnd, x, c.un(ONot, w, 0, y)), k)
	case token.LSS:
		return boolV(c.Bin(lt, x, y))
	case token.LEQ:
		return boolV(c.Bin(le, x, y))
	case token.GTR:
		return boolV(c.Bin(lt, y, x))
	case token.GEQ:
		return boolV(c.Bin(le, y, x))
	}
	panic(engineErr("int op " + op.String()))
}

func (m *Machine) floatOp(op token.Token, a, b V, k nkind) V {
	if a.o == nil && b.o == nil {
		x, y := f64(a), f64(b)
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return bv(x < y)
		case token.LEQ:
			return bv(x <= y)
		case token.GTR:
			return bv(x > y)
		case token.GEQ:
			return bv(x >= y)
		default:
			panic(engineErr("float op"))
		}
		if k.w == 32 {
			r = float64(float32(r))
		}
		return V{n: math.Float64bits(r)}
	}
	if k.w == 32 {
		panic(engineErr("symbolic float32"))
	}
	if r, ok := m.fexact(op, a, b); ok {
		return r
	}
	c := m.ctx
	x, y := m.toExpr(a, wF64), m.toExpr(b, wF64)
	switch op {
	case token.ADD:
		return exprV(c.Bin(OFAdd, x, y), k)
	case token.SUB:
		return exprV(c.Bin(OFSub, x, y), k)
	case token.MUL:
		return exprV(c.Bin(OFMul, x, y), k)
	case token.QUO:
		return exprV(c.Bin(OFDiv, x, y), k)
	case token.LSS:
		return boolV(c.Bin(OFLt, x, y))
	case token.LEQ:
		return boolV(c.Bin(OFLe, x, y))
	case token.GTR:
		return boolV(c.Bin(OFLt, y, x))
	case token.GEQ:
		return boolV(c.Bin(OFLe, y, x))
	}
	panic(engineErr("float op"))
}

func (c *compiler) unop(b *block, in *ssa.UnOp, dst int) {
	x := c.opn(in.X)
	pos := in.Pos()
	k, _ := basicKind(in.Type())
	switch in.Op {
	case token.MUL: // load
		if in.CommaOk {
			panic(engineErr("commaok load"))
		}
		if g, ok := in.X.(*ssa.Global); ok {
			path := ""
			if g.Pkg != nil {
				path = g.Pkg.Pkg.Path()
			}
			if !isTarget(path) && !initPkgs[path] && !okGlobals[g.String()] {
				name := g.String()
				c.emit(b, func(fr *Frame) { panic(engineErr("read of unmodelled global " + name)) })
				return
			}
		}
		c.emit(b, func(fr *Frame) {
			switch pv := fr.get(x).o.(type) {
			case *V:
				if a, ok := pv.o.(*Agg); ok {
					fr.regs[dst] = V{o: copyAgg(a)}
				} else {
					fr.regs[dst] = *pv
				}
			case *SymPtr:
				fr.pos = pos
				if k.w != 0 || k.isBool {
					fr.regs[dst] = fr.m.selectV(pv.base, pv.idx, k)
				} else {
					fr.regs[dst] = copyV(pv.base[fr.m.concretise(pv.idx)])
				}
			default:
				fr.pos = pos
				fr.m.badPtr(fr.get(x))
			}
		})
	case token.NOT:
		c.emit(b, func(fr *Frame) { fr.regs[dst] = fr.m.notIf(fr.get(x), true) })
	case token.SUB:
		c.emit(b, func(fr *Frame) {
			v := fr.get(x)
			if k.float {
				if v.o == nil {
					fr.regs[dst] = V{n: math.Float64bits(-f64(v))}
				} else if r, ok := fr.m.fneg(v); ok {
					fr.regs[dst] = r
				} else {
					fr.regs[dst] = V{o: fr.m.ctx.un(OFNeg, wF64, 0, v.o.(*Expr))}
				}
				return
			}
			fr.regs[dst] = fr.m.intOp(token.SUB, V{}, v, k, k)
		})
	case token.XOR:
		c.emit(b, func(fr *Frame) {
			v := fr.get(x)
			if v.o == nil {
				fr.regs[dst] = V{n: canon(^v.n, k)}
			} else {
				fr.regs[dst] = exprV(fr.m.ctx.un(ONot, k.w, 0, v.o.(*Expr)), k)
			}
		})
	default:
		panic(engineErr("unop " + in.Op.String()))
	}
}

func (c *compiler) convert(b *block, in *ssa.Convert, dst int) {
	x := c.opn(in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fk, fb := basicKind(from)
	tk, tb := basicKind(to)
	pos := in.Pos()
	if fb && tb {
		switch {
		case fk.isStr && tk.isStr:
			c.emit(b, func(fr *Frame) { fr.regs[dst] = fr.get(x) })
		case tk.isStr: // int -> string
			c.emit(b, func(fr *Frame) {
				fr.pos = pos
				v := fr.get(x)
				m := fr.m
				if v.o == nil {
					r := int64(v.n)
					if r < 0 || r > 0x10ffff || fk.w == 64 && !fk.signed && v.n > 0x10ffff {
						r = 0xfffd
					}
					fr.regs[dst] = V{o: string(rune(r))}
					return
				}
				fr.regs[dst] = m.runeToString(v.o.(*Expr), fk)
			})
		case fk.float && tk.float:
			c.emit(b, func(fr *Frame) {
				v := fr.get(x)
				if tk.w == 32 && v.o == nil {
					v.n = math.Float64bits(float64(float32(f64(v))))
				} else if tk.w == 32 {
					panic(engineErr("symbolic float32"))
				}
				fr.regs[dst] = v
			})
		case fk.float:
			c.emit(b, func(fr *Frame) {
				v := fr.get(x)
				if v.o == nil {
					f := f64(v)
					var r uint64
					if tk.signed {
						if tk.w == 64 {
							r = evalOp(OFToS, 64, 0, wF64, math.Float64bits(f), 0, 0)
						} else {
							r = uint64(int64(f))
						}
					} else {
						r = uint64(f)
					}
					fr.regs[dst] = V{n: canon(r, tk)}
					return
				}
				if !tk.signed || tk.w != 64 {
					panic(engineErr("symbolic float to " + in.Type().String()))
				}
				if x, ok := fr.m.ftoS(v); ok {
					fr.regs[dst] = exprV(x, tk)
					return
				}
				fr.regs[dst] = exprV(fr.m.ctx.un(OFToS, tk.w, 0, v.o.(*Expr)), tk)
			})
		case tk.float:
			c.emit(b, func(fr *Frame) {
				v := fr.get(x)
				if v.o == nil {
					var f float64
					if fk.signed {
						f = float64(int64(v.n))
					} else {
						f = float64(v.n)
					}
					if tk.w == 32 {
						f = float64(float32(f))
					}
					fr.regs[dst] = V{n: math.Float64bits(f)}
					return
				}
				if tk.w == 32 {
					panic(engineErr("symbolic float32"))
				}
				op := OFFromU
				if fk.signed {
					op = OFFromS
				}
				fr.regs[dst] = exprV(fr.m.ctx.un(op, wF64, 0, v.o.(*Expr)), tk)
			})
		default: // int -> int
			c.emit(b, func(fr *Frame) {
				v := fr.get(x)
				if v.o == nil {
					fr.regs[dst] = V{n: canon(v.n, tk)}
					return
				}
				e := v.o.(*Expr)
				ctx := fr.m.ctx
				if tk.w > fk.w {
					if fk.signed {
						e = ctx.SExt(e, tk.w)
					} else {
						e = ctx.ZExt(e, tk.w)
					}
				} else if tk.w < fk.w {
					e = ctx.Trunc(e, tk.w)
				}
				fr.regs[dst] = exprV(e, tk)
			})
		}
		return
	}
	if fb && fk.isStr {
		el := to.(*types.Slice).Elem().Underlying().(*types.Basic)
		if el.Kind() == types.Uint8 {
			c.emit(b, func(fr *Frame) {
				bs := strBytes(fr.get(x))
				n := len(bs)
				cp := roundupsize(n)
				if n <= 32 { // small conversions may use a stack buffer; capacity is unspecified
					cp = max(n, cp)
				}
				s := make([]V, n, cp)
				copy(s, bs)
				fr.regs[dst] = V{o: &Slice{s: s, el: 1}}
			})
			return
		}
		c.emit(b, func(fr *Frame) {
			it := &strIter{s: fr.get(x)}
			out := []V{}
			for {
				a := it.next(fr.m).o.(*Agg)
				if a.e[0].n == 0 {
					break
				}
				out = append(out, a.e[2])
			}
			fr.regs[dst] = V{o: &Slice{s: out, el: 4}}
		})
		return
	}
	if tb && tk.isStr {
		el := from.(*types.Slice).Elem().Underlying().(*types.Basic)
		isByte := el.Kind() == types.Uint8
		c.emit(b, func(fr *Frame) {
			o := fr.get(x).o
			if o == nil {
				fr.regs[dst] = V{o: ""}
				return
			}
			s := o.(*Slice).s
			if isByte {
				fr.regs[dst] = mkStr(append([]V(nil), s...))
				return
			}
			r := V{o: ""}
			for _, e := range s {
				if e.o == nil {
					r = strConcat(r, V{o: string(rune(int32(e.n)))})
				} else {
					r = strConcat(r, fr.m.runeToString(e.o.(*Expr), nkind{w: 32, signed: true}))
				}
			}
			fr.regs[dst] = r
		})
		return
	}
	if _, ok := to.(*types.Pointer); ok {
		panic(engineErr("unsafe pointer conversion in " + c.f.name))
	}
	panic(engineErr(fmt.Sprintf("convert %s -> %s in %s", from, to, c.f.name)))
}

func (c *compiler) slice(b *block, in *ssa.Slice, dst int) {
	x := c.opn(in.X)
	pos := in.Pos()
	opt := func(v ssa.Value) (opnd, nkind, bool) {
		if v == nil {
			return 0, nkind{}, false
		}
		k, _ := basicKind(v.Type())
		return c.opn(v), k, true
	}
	lo, lk, hasLo := opt(in.Low)
	hi, hk, hasHi := opt(in.High)
	mx, mk, hasMax := opt(in.Max)
	var el int
	isStr := false
	switch t := in.X.Type().Underlying().(type) {
	case *types.Basic:
		isStr = true
	case *types.Slice:
		el = elemSize(t.Elem())
	case *types.Pointer:
		el = elemSize(t.Elem().Underlying().(*types.Array).Elem())
	}
	c.emit(b, func(fr *Frame) {
		m := fr.m
		fr.pos = pos
		xv := fr.get(x)
		if isStr {
			n := strLen(xv)
			var l, h V
			h = V{n: uint64(n)}
			if hasLo {
				l = fr.get(lo)
			}
			if hasHi {
				h = fr.get(hi)
			}
			hv := m.boundArg(h, hk, n, "slice bounds out of range [:%d] with length %d")
			lv := m.boundArg(l, lk, hv, "slice bounds out of range [%d:%d]")
			fr.regs[dst] = strSlice(xv, lv, hv)
			return
		}
		var s []V
		isNil := false
		switch o := xv.o.(type) {
		case nil:
			isNil = true
		case *Slice:
			s = o.s
		case *V:
			s = o.o.(*Agg).e
		default:
			panic(engineErr(fmt.Sprintf("slice of %T", o)))
		}
		mxv := cap(s)
		if hasMax {
			mxv = m.boundArg(fr.get(mx), mk, cap(s), "slice bounds out of range [::%d] with capacity %d")
		}
		hv := len(s)
		if hasHi {
			hv = m.boundArg(fr.get(hi), hk, mxv, "slice bounds out of range [:%d] with capacity %d")
		}
		lv := 0
		if hasLo {
			lv = m.boundArg(fr.get(lo), lk, hv, "slice bounds out of range [%d:%d]")
		} else if hv < 0 {
			m.rtPanic("slice bounds")
		}
		if isNil {
			fr.regs[dst] = V{}
			return
		}
		if lv > hv {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lv, hv))
		}
		fr.regs[dst] = V{o: &Slice{s: s[lv:hv:mxv], el: el}}
	})
}

func (c *compiler) typeAssert(b *block, in *ssa.TypeAssert, dst int) {
	p := c.f.p
	x := c.opn(in.X)
	rt := p.rts.get(in.AssertedType)
	_, isI := in.AssertedType.Underlying().(*types.Interface)
	commaOk := in.CommaOk
	pos := in.Pos()
	c.emit(b, func(fr *Frame) {
		v := fr.get(x)
		ok := false
		var r V
		if v.o != nil {
			i, isIf := v.o.(*Iface)
			if !isIf {
				panic(engineErr(fmt.Sprintf("typeassert on %T in %s", v.o, fr.fn.name)))
			}
			if isI {
				if p.implements(i.t, rt) {
					ok, r = true, v
				}
			} else if i.t == rt {
				ok, r = true, i.v
			}
		}
		if commaOk {
			if !ok {
				r = zeroOf(in.AssertedType)
			}
			fr.regs[dst] = V{o: &Agg{[]V{r, bv(ok)}}}
			return
		}
		if !ok {
			fr.pos = pos
			dyn := "nil"
			if v.o != nil {
				dyn = v.o.(*Iface).t.String()
			}
			fr.m.rtPanic("interface conversion: interface is " + dyn + ", not " + rt.String())
		}
		fr.regs[dst] = r
	})
}

// ---- calls -----------------------------------------------------------------

func (c *compiler) call(cc *ssa.CallCommon, pos token.Pos) func(fr *Frame) V {
	p := c.f.p
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.opn(a))
	}
	if cc.IsInvoke() {
		recv := c.opn(cc.Value)
		meth := cc.Method
		return func(fr *Frame) V {
			fr.pos = pos
			v := fr.get(recv)
			if v.o == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := v.o.(*Iface)
			fn := p.method(i.t, meth)
			return fr.m.callN(fr, fn, i.v, true, args, nil)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(f, cc, args, pos)
	case *ssa.Function:
		fn := p.fn(f)
		return func(fr *Frame) V {
			fr.pos = pos
			return fr.m.callN(fr, fn, V{}, false, args, nil)
		}
	}
	fv := c.opn(cc.Value)
	return func(fr *Frame) V {
		fr.pos = pos
		v := fr.get(fv)
		if v.o == nil {
			fr.m.rtPanic("invalid memory address or nil pointer dereference")
		}
		cl := v.o.(*Closure)
		return fr.m.callN(fr, cl.fn, V{}, false, args, cl.env)
	}
}

// prepCall evaluates function and arguments now, to be called later (defer).
func (c *compiler) prepCall(cc *ssa.CallCommon, pos token.Pos) func(fr *Frame) func() {
	p := c.f.p
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.opn(a))
	}
	evalArgs := func(fr *Frame, pre []V) []V {
		out := append([]V(nil), pre...)
		for _, o := range args {
			out = append(out, fr.get(o))
		}
		return out
	}
	if cc.IsInvoke() {
		recv := c.opn(cc.Value)
		meth := cc.Method
		return func(fr *Frame) func() {
			v := fr.get(recv)
			if v.o == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := v.o.(*Iface)
			fn := p.method(i.t, meth)
			av := evalArgs(fr, []V{i.v})
			return func() { fr.m.callV(fr, fn, av, nil) }
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		call := c.builtin(f, cc, args, pos)
		return func(fr *Frame) func() { return func() { call(fr) } }
	case *ssa.Function:
		fn := p.fn(f)
		return func(fr *Frame) func() {
			av := evalArgs(fr, nil)
			return func() { fr.m.callV(fr, fn, av, nil) }
		}
	}
	fv := c.opn(cc.Value)
	return func(fr *Frame) func() {
		cl := fr.get(fv).o
		av := evalArgs(fr, nil)
		return func() {
			if cl == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			k := cl.(*Closure)
			fr.m.callV(fr, k.fn, av, k.env)
		}
	}
}

func (m *Machine) callN(fr *Frame, fn *Fn, recv V, hasRecv bool, args []opnd, env []V) V {
	if fn.intr != nil {
		av := make([]V, 0, len(args)+1)
		if hasRecv {
			av = append(av, recv)
		}
		for _, o := range args {
			av = append(av, fr.get(o))
		}
		return fn.intr(m, fr, fn, av)
	}
	if err := fn.compile(); err != nil {
		panic(err)
	}
	regs := m.allocRegs(fn.nregs)
	j := 0
	if hasRecv {
		regs[0] = recv
		j = 1
	}
	for _, o := range args {
		regs[j] = fr.get(o)
		j++
	}
	for _, e := range env {
		regs[j] = e
		j++
	}
	return m.run(fr, fn, regs)
}

func (m *Machine) callV(fr *Frame, fn *Fn, args []V, env []V) V {
	if fn.intr != nil {
		return fn.intr(m, fr, fn, args)
	}
	if err := fn.compile(); err != nil {
		panic(err)
	}
	regs := m.allocRegs(fn.nregs)
	j := copy(regs, args)
	copy(regs[j:], env)
	return m.run(fr, fn, regs)
}

var _ = atomic.AddInt32
