package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"regexp/syntax"
	"slices"
	"strconv"
	"strings"
	"sync"
)

type intrinsic func(m *Machine, fr *Frame, fn *Fn, a []V) V

func intrinsicFor(name string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasSuffix(name, ".init") && !isTarget(strings.TrimSuffix(name, ".init")) {
		return func(m *Machine, fr *Frame, fn *Fn, a []V) V { return V{} }
	}
	return nil
}

// callBody interprets fn from its source, ignoring any intrinsic.
func (m *Machine) callBody(fr *Frame, fn *Fn, args []V) V {
	if err := fn.compile(); err != nil {
		panic(err)
	}
	regs := m.allocRegs(fn.nregs)
	copy(regs, args)
	return m.run(fr, fn, regs)
}

var okGlobals = map[string]bool{
	"internal/bytealg.MaxLen": true,
}

func tup(vs ...V) V { return V{o: &Agg{vs}} }

func (m *Machine) newVar(name, kind string, w uint8, sgn bool) *Expr {
	idx := m.nvars
	m.nvars++
	if kind == "internal" {
		m.internal++
	}
	m.inputs = append(m.inputs, input{Name: name, Kind: kind, w: w, idx: idx, sgn: sgn})
	return m.ctx.Var(idx, w)
}

// assume restricts the path; the path ends if it becomes infeasible.
func (m *Machine) assume(e *Expr) {
	if e.isConst() {
		if e.n == 0 {
			panic(pathEnd{endAssume, ""})
		}
		return
	}
	if m.known[e] {
		return
	}
	// when replaying a prefix whose model already satisfies e no query is needed
	if m.ctx.eval(e, m.model) != 0 {
		m.addPC(e)
		return
	}
	if m.ppos < len(m.prefix) {
		// The prefix was found feasible with this assumption in force; its
		// model covers it unless variables are created in a different order.
		panic(engineErr("replay divergence (assume)"))
	}
	res, vals := m.solver.check(m.slice(e))
	switch res {
	case Unsat:
		panic(pathEnd{endAssume, ""})
	case Unknown:
		m.ex.noteUnknown()
		panic(pathEnd{endAssume, "unknown"})
	}
	m.model = mergeModel(m.model, vals)
	m.addPC(e)
}

func (m *Machine) assert(v V, label string) {
	m.nasserts++
	m.reach["assert:"+label] = true
	if v.o == nil {
		if v.n == 0 {
			panic(pathEnd{endViolation, label})
		}
		return
	}
	e := v.o.(*Expr)
	ne := m.ctx.Not(e)
	if m.known[e] {
		return
	}
	if m.ppos < len(m.prefix) {
		// already discharged when this prefix was first explored
		m.setKnown(e)
		return
	}
	m.ex.addSymAssert()
	res, vals := m.solver.check(m.slice(ne))
	switch res {
	case Sat:
		m.model = mergeModel(m.model, vals)
		panic(pathEnd{endViolation, label})
	case Unknown:
		m.ex.noteUnknown()
	}
	m.setKnown(e)
}

func argStr(m *Machine, v V) string {
	s, ok := concStr(v)
	if !ok {
		panic(engineErr("symbolic label"))
	}
	return s
}

const symPkg = "helena/zzverif/sym."

func (m *Machine) symBytes(name string, n int) []V {
	b := make([]V, n)
	for i := range b {
		b[i] = V{o: m.newVar(fmt.Sprintf("%s[%d]", name, i), "byte", 8, false)}
	}
	return b
}

var poolMu sync.Mutex

var intrinsics map[string]intrinsic

func sbuf(m *Machine, v V) *V {
	p, ok := v.o.(*V)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	a := p.o.(*Agg)
	return &a.e[len(a.e)-1]
}

func sbAppend(m *Machine, recv V, add []V) {
	b := sbuf(m, recv)
	var s []V
	if b.o != nil {
		s = b.o.(*Slice).s
	}
	b.o = &Slice{s: append(s, add...), el: 1}
}

func sliceVals(v V) []V {
	if v.o == nil {
		return nil
	}
	return v.o.(*Slice).s
}

func sconst(s string) V { return V{o: s} }

func mathFn(f func(float64) float64) intrinsic {
	return func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		if a[0].o != nil {
			panic(engineErr("symbolic argument to " + fn.name))
		}
		return V{n: math.Float64bits(f(f64(a[0])))}
	}
}

// lock notes that code under test synchronises with other goroutines.
func lock(m *Machine, fr *Frame, fn *Fn, a []V) V {
	if fr != nil && fr.fn != nil && isTarget(fr.fn.pkg) {
		m.locked = true
	}
	return V{}
}

func noop(m *Machine, fr *Frame, fn *Fn, a []V) V { return V{} }

func init() {
	intrinsics = map[string]intrinsic{
		symPkg + "Symbolic": func(m *Machine, fr *Frame, fn *Fn, a []V) V { return V{n: 1} },
		symPkg + "Param": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if v, ok := m.ex.params[argStr(m, a[0])]; ok {
				return V{n: uint64(int64(v))}
			}
			return a[1]
		},
		symPkg + "Int": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			lo, hi := int64(a[1].n), int64(a[2].n)
			if lo == hi {
				return a[1]
			}
			if lo >= -(1<<15) && hi < 1<<15 {
				w := uint8(16)
				if lo >= -(1<<7) && hi < 1<<7 {
					w = 8
				}
				e := m.newVar(argStr(m, a[0]), "int", w, true)
				m.assume(m.ctx.And(m.ctx.Bin(OSle, m.ctx.BV(uint64(lo), w), e), m.ctx.Bin(OSle, e, m.ctx.BV(uint64(hi), w))))
				return V{o: m.ctx.SExt(e, 64)}
			}
			e := m.newVar(argStr(m, a[0]), "int", 64, true)
			m.assume(m.ctx.And(m.ctx.Bin(OSle, m.ctx.BV(uint64(lo), 64), e), m.ctx.Bin(OSle, e, m.ctx.BV(uint64(hi), 64))))
			return V{o: e}
		},
		symPkg + "Int64": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return V{o: m.newVar(argStr(m, a[0]), "int", 64, true)}
		},
		symPkg + "Byte": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return V{o: m.newVar(argStr(m, a[0]), "byte", 8, false)}
		},
		symPkg + "Bool": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			e := m.newVar(argStr(m, a[0]), "bool", 8, false)
			m.assume(m.ctx.Bin(OUle, e, m.ctx.BV(1, 8)))
			return boolV(m.ctx.Bin(OEq, e, m.ctx.BV(1, 8)))
		},
		symPkg + "Float64": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			e := m.newVar(argStr(m, a[0]), "float", 64, false)
			return V{o: m.ctx.un(OFBits, wF64, 0, e)}
		},
		symPkg + "Choice": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			n := int64(a[1].n)
			if n <= 1 {
				return V{}
			}
			e := m.newVar(argStr(m, a[0]), "choice", 16, false)
			m.assume(m.ctx.Bin(OUlt, e, m.ctx.BV(uint64(n), 16)))
			return V{n: m.concretise(e)}
		},
		symPkg + "Bytes": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			b := m.symBytes(argStr(m, a[0]), int(m.concV(a[1], nkind{w: 64, signed: true}).n))
			return mkStr(b)
		},
		symPkg + "BytesOf": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			b := m.symBytes(argStr(m, a[0]), int(m.concV(a[1], nkind{w: 64, signed: true}).n))
			al := argStr(m, a[2])
			var set [256]bool
			for i := 0; i < len(al); i++ {
				set[al[i]] = true
			}
			for _, v := range b {
				e := v.o.(*Expr)
				cond := m.ctx.fls
				for i := 0; i < 256; i++ {
					if !set[i] {
						continue
					}
					j := i
					for j+1 < 256 && set[j+1] {
						j++
					}
					if i == j {
						cond = m.ctx.Or(cond, m.ctx.Bin(OEq, e, m.ctx.BV(uint64(i), 8)))
					} else {
						cond = m.ctx.Or(cond, m.ctx.And(m.ctx.Bin(OUle, m.ctx.BV(uint64(i), 8), e), m.ctx.Bin(OUle, e, m.ctx.BV(uint64(j), 8))))
					}
					i = j
				}
				m.assume(cond)
			}
			return mkStr(b)
		},
		symPkg + "Assume": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.assume(m.toExpr(a[0], 0))
			return V{}
		},
		symPkg + "Assert": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.assert(a[0], argStr(m, a[1]))
			return V{}
		},
		symPkg + "Fail": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.assert(V{}, argStr(m, a[0]))
			return V{}
		},
		symPkg + "Reach": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.reach[argStr(m, a[0])] = true
			return V{}
		},
		symPkg + "Observe": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.obs = append(m.obs, obsRec{argStr(m, a[0]), a[1], "string"})
			return V{}
		},
		symPkg + "ObserveInt": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.obs = append(m.obs, obsRec{argStr(m, a[0]), a[1], "int"})
			return V{}
		},
		symPkg + "ObserveBool": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.obs = append(m.obs, obsRec{argStr(m, a[0]), a[1], "bool"})
			return V{}
		},
		symPkg + "Concretize": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return sconst(m.concString(a[0]))
		},
		symPkg + "ConcretizeInt": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return m.concV(a[0], nkind{w: 64, signed: true})
		},
		symPkg + "FreshPools": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.poolMode = 1
			return V{}
		},
		symPkg + "AnyPools": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.poolMode = 2
			return V{}
		},
		symPkg + "SharedPools": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.poolMode = 3
			m.given = m.given[:0]
			m.watched = m.globalState()
			m.locked = false
			return V{}
		},
		symPkg + "GlobalsUntouched": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			// what is written under a lock may be shared
			if m.watched == nil || m.locked || slices.Equal(m.watched, m.globalState()) {
				return V{n: 1}
			}
			return V{}
		},
		symPkg + "PoolsUntouched": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			for _, g := range m.given {
				if !isZeroV(*g) {
					return V{}
				}
			}
			return V{n: 1}
		},
		symPkg + "AnyMapOrder": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.mapOrder = a[0].n != 0
			return V{}
		},
		symPkg + "WriteFile": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			m.files[cleanPath(argStr(m, a[0]))] = a[1]
			return V{}
		},
		symPkg + "RemoveFile": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			delete(m.files, cleanPath(argStr(m, a[0])))
			return V{}
		},
		"os.ReadFile": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			v, ok := m.files[cleanPath(m.concString(a[0]))]
			if !ok {
				return tup(V{}, m.mkError("open: no such file or directory"))
			}
			bs := strBytes(v)
			return tup(V{o: &Slice{s: append([]V(nil), bs...), el: 1}}, V{})
		},
		"os.Getwd": func(m *Machine, fr *Frame, fn *Fn, a []V) V { return tup(sconst(vcwd), V{}) },

		// sync
		"(*sync.Pool).Get": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			p := a[0].o.(*V)
			l := m.pools[p]
			reuse := len(l) > 0 && m.poolMode != 1 && m.poolMode != 3
			if reuse && m.poolMode == 2 {
				reuse = m.choose("pool", 2) == 0
			}
			if reuse {
				v := l[len(l)-1]
				m.pools[p] = l[:len(l)-1]
				return v
			}
			ag := p.o.(*Agg)
			nf := ag.e[len(ag.e)-1]
			if nf.o == nil {
				return V{}
			}
			c := nf.o.(*Closure)
			return m.callV(fr, c.fn, nil, c.env)
		},
		"(*sync.Pool).Put": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			p := a[0].o.(*V)
			if m.poolMode == 3 {
				m.giveAway(a[1])
				return V{}
			}
			m.pools[p] = append(m.pools[p], a[1])
			return V{}
		},
		"(*sync.Mutex).Lock": lock, "(*sync.Mutex).Unlock": noop,
		"(*sync.RWMutex).Lock": lock, "(*sync.RWMutex).Unlock": noop,
		"(*sync.RWMutex).RLock": lock, "(*sync.RWMutex).RUnlock": noop,
		"(*sync.Once).Do": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			lock(m, fr, fn, a)
			p := a[0].o.(*V)
			if _, ok := m.pools[p]; ok {
				return V{}
			}
			m.pools[p] = nil
			c := a[1].o.(*Closure)
			m.callV(fr, c.fn, nil, c.env)
			return V{}
		},

		// strings.Builder, bytealg and friends
		"(*strings.Builder).copyCheck": noop,
		"(*strings.Builder).Grow":      noop,
		"(*strings.Builder).String": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return mkStr(append([]V(nil), sliceVals(*sbuf(m, a[0]))...))
		},
		"(*strings.Builder).WriteString": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			sbAppend(m, a[0], strBytes(a[1]))
			return tup(V{n: uint64(strLen(a[1]))}, V{})
		},
		"(*strings.Builder).Write": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			s := sliceVals(a[1])
			sbAppend(m, a[0], s)
			return tup(V{n: uint64(len(s))}, V{})
		},
		"(*strings.Builder).WriteByte": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			sbAppend(m, a[0], a[1:2])
			return V{}
		},
		"(*strings.Builder).WriteRune": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			var s V
			if a[1].o == nil {
				s = sconst(string(rune(int32(a[1].n))))
			} else {
				s = m.runeToString(a[1].o.(*Expr), nkind{w: 32, signed: true})
			}
			sbAppend(m, a[0], strBytes(s))
			return tup(V{n: uint64(strLen(s))}, V{})
		},
		"maps.clone": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if a[0].o == nil {
				return a[0]
			}
			i := a[0].o.(*Iface)
			src, _ := i.v.o.(*Map)
			if src == nil {
				return a[0]
			}
			out := newMap(src.kt)
			for _, e := range src.entries {
				if !e.deleted {
					m.mapSet(out, e.k, e.v)
				}
			}
			return V{o: &Iface{t: i.t, v: V{o: out}}}
		},
		"strings.Clone":                    func(m *Machine, fr *Frame, fn *Fn, a []V) V { return a[0] },
		"internal/stringslite.Clone":       func(m *Machine, fr *Frame, fn *Fn, a []V) V { return a[0] },
		"internal/bytealg.IndexByteString": func(m *Machine, fr *Frame, fn *Fn, a []V) V { return m.indexByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.IndexByte":       func(m *Machine, fr *Frame, fn *Fn, a []V) V { return m.indexByte(sliceVals(a[0]), a[1]) },
		"internal/bytealg.LastIndexByteString": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			b := strBytes(a[0])
			for i := len(b) - 1; i >= 0; i-- {
				if m.branchV(m.byteEq(b[i], a[1])) {
					return V{n: uint64(i)}
				}
			}
			return V{n: ^uint64(0)}
		},
		"internal/bytealg.CountString": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			n := uint64(0)
			for _, b := range strBytes(a[0]) {
				if m.branchV(m.byteEq(b, a[1])) {
					n++
				}
			}
			return V{n: n}
		},
		"internal/bytealg.MakeNoZero": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return V{o: &Slice{s: make([]V, a[0].n), el: 1}}
		},
		"internal/bytealg.Equal": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return m.strEq(mkStr(sliceVals(a[0])), mkStr(sliceVals(a[1])))
		},
		"bytes.Equal": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return m.strEq(mkStr(sliceVals(a[0])), mkStr(sliceVals(a[1])))
		},
		"internal/bytealg.CompareString": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if m.branchV(m.strLess(a[0], a[1])) {
				return V{n: ^uint64(0)}
			}
			if m.branchV(m.strLess(a[1], a[0])) {
				return V{n: 1}
			}
			return V{}
		},
		"strings.Index": indexStr,
		"strings.Compare": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if m.branchV(m.strLess(a[0], a[1])) {
				return V{n: ^uint64(0)}
			}
			if m.branchV(m.strLess(a[1], a[0])) {
				return V{n: 1}
			}
			return V{}
		},
		"internal/stringslite.Index": indexStr,
		"internal/abi.NoEscape":      func(m *Machine, fr *Frame, fn *Fn, a []V) V { return a[0] },

		// strconv
		"strconv.FormatInt": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if a[0].o == nil && a[1].o == nil {
				return sconst(strconv.FormatInt(int64(a[0].n), int(a[1].n)))
			}
			if a[1].o == nil && a[1].n == 10 {
				return m.formatInt(a[0].o.(*Expr), true)
			}
			return m.callBody(fr, fn, a)
		},
		"strconv.Itoa": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if a[0].o == nil {
				return sconst(strconv.Itoa(int(a[0].n)))
			}
			return m.formatInt(a[0].o.(*Expr), true)
		},
		"strconv.FormatUint": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if a[0].o == nil && a[1].o == nil {
				return sconst(strconv.FormatUint(a[0].n, int(a[1].n)))
			}
			return m.formatInt(a[0].o.(*Expr), false)
		},
		"strconv.FormatFloat": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if e, ok := a[0].o.(*Expr); ok {
				a[0] = V{n: m.concretise(e)}
			}
			return sconst(strconv.FormatFloat(f64(a[0]), byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
		},
		"strconv.ParseFloat": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			s, ok := concStr(a[0])
			if !ok {
				if !m.mayBeFloat(a[0]) {
					return tup(V{}, m.mkError("parse error"))
				}
				s = m.concString(a[0])
			}
			f, err := strconv.ParseFloat(s, int(a[1].n))
			if err != nil {
				return tup(V{n: math.Float64bits(f)}, m.mkError(err.Error()))
			}
			return tup(V{n: math.Float64bits(f)}, V{})
		},
		"strconv.Quote": func(m *Machine, fr *Frame, fn *Fn, a []V) V { return sconst(strconv.Quote(m.concString(a[0]))) },

		// math
		"reflect.ValueOf": func(m *Machine, fr *Frame, fn *Fn, a []V) V { return a[0] },
		"(reflect.Value).Comparable": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			x, ok := a[0].o.(*Iface)
			if !ok {
				return bv(true)
			}
			// types holding interfaces are not used by the code under test
			return bv(types.Comparable(x.t.t))
		},
		"math.Float64bits": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if e, ok := a[0].o.(*Expr); ok {
				if e.op == OFBits {
					return V{o: e.a}
				}
				return V{n: m.concretise(e)}
			}
			return a[0]
		},
		"math.Float64frombits": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if e, ok := a[0].o.(*Expr); ok {
				return V{o: m.ctx.un(OFBits, wF64, 0, e)}
			}
			return a[0]
		},
		"math.IsNaN": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if e, ok := a[0].o.(*Expr); ok {
				if _, _, ok := m.fint(a[0]); ok {
					return V{}
				}
				return boolV(m.ctx.un(OFIsNaN, 0, 0, e))
			}
			return bv(math.IsNaN(f64(a[0])))
		},
		"math.Trunc": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			if e, ok := a[0].o.(*Expr); ok {
				if x, _, ok := m.fint(a[0]); ok {
					return m.fromS(x)
				}
				return V{o: m.ctx.un(OFTrunc, wF64, 0, e)}
			}
			return V{n: math.Float64bits(math.Trunc(f64(a[0])))}
		},
		"math.Floor": mathFn(math.Floor), "math.Ceil": mathFn(math.Ceil), "math.Abs": mathFn(math.Abs), "math.Sqrt": mathFn(math.Sqrt),
		"math.Round": mathFn(math.Round),

		// fmt
		"fmt.Sprint": func(m *Machine, fr *Frame, fn *Fn, a []V) V { return m.sprint(fr, sliceVals(a[0]), false) },
		"fmt.Sprintln": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return strConcat(m.sprint(fr, sliceVals(a[0]), true), sconst("\n"))
		},
		"fmt.Sprintf": func(m *Machine, fr *Frame, fn *Fn, a []V) V { return m.sprintf(fr, a[0], sliceVals(a[1])) },
		"fmt.Errorf":  func(m *Machine, fr *Frame, fn *Fn, a []V) V { return m.mkErrorV(m.sprintf(fr, a[0], sliceVals(a[1]))) },
		"fmt.Println": func(m *Machine, fr *Frame, fn *Fn, a []V) V { return tup(V{}, V{}) },
		"fmt.Printf":  func(m *Machine, fr *Frame, fn *Fn, a []V) V { return tup(V{}, V{}) },
		"fmt.Print":   func(m *Machine, fr *Frame, fn *Fn, a []V) V { return tup(V{}, V{}) },

		// regexp: compiled natively, matched by a per-byte model or after concretisation
		"regexp.MustCompile": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return V{o: getRegexp(m.concString(a[0]), m)}
		},
		"regexp.Compile": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			s := m.concString(a[0])
			if _, err := regexp.Compile(s); err != nil {
				return tup(V{}, m.mkError(err.Error()))
			}
			n := *getRegexp(s, m) // values of its own, for Longest
			return tup(V{o: &n}, V{})
		},
		"regexp.CompilePOSIX": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			re, err := regexp.CompilePOSIX(m.concString(a[0]))
			if err != nil {
				return tup(V{}, m.mkError(err.Error()))
			}
			return tup(V{o: &nativeRegexp{re: re}}, V{})
		},
		"(*regexp.Regexp).Longest": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			n := a[0].o.(*nativeRegexp)
			re := *n.re
			re.Longest()
			n.re, n.class = &re, nil
			return V{}
		},
		"(*regexp.Regexp).MatchString": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			re := a[0].o.(*nativeRegexp)
			if s, ok := concStr(a[1]); ok {
				return bv(re.re.MatchString(s))
			}
			if re.class != nil {
				for _, b := range strBytes(a[1]) {
					if m.branchV(m.inClass(b, re.class)) {
						return V{n: 1}
					}
				}
				return V{}
			}
			return bv(re.re.MatchString(m.concString(a[1])))
		},
		"(*regexp.Regexp).ReplaceAllStringFunc": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			re := a[0].o.(*nativeRegexp)
			cl := a[2].o.(*Closure)
			if _, ok := concStr(a[1]); !ok && re.class == nil {
				a[1] = sconst(m.concString(a[1]))
			}
			if s, ok := concStr(a[1]); ok {
				r := sconst("")
				last := 0
				for _, loc := range re.re.FindAllStringIndex(s, -1) {
					r = strConcat(r, sconst(s[last:loc[0]]))
					r = strConcat(r, m.callV(fr, cl.fn, []V{sconst(s[loc[0]:loc[1]])}, cl.env))
					last = loc[1]
				}
				return strConcat(r, sconst(s[last:]))
			}
			r := sconst("")
			for _, b := range strBytes(a[1]) {
				c := mkStr([]V{b})
				if m.branchV(m.inClass(b, re.class)) {
					c = m.callV(fr, cl.fn, []V{c}, cl.env)
				}
				r = strConcat(r, c)
			}
			return r
		},
		"(*regexp.Regexp).ReplaceAllString": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			re := a[0].o.(*nativeRegexp)
			return sconst(re.re.ReplaceAllString(m.concString(a[1]), m.concString(a[2])))
		},
		"(*regexp.Regexp).String": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return sconst(a[0].o.(*nativeRegexp).re.String())
		},
		"(*regexp.Regexp).ReplaceAllLiteralString": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			re := a[0].o.(*nativeRegexp)
			return sconst(re.re.ReplaceAllLiteralString(m.concString(a[1]), m.concString(a[2])))
		},
		"(*regexp.Regexp).FindString": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return sconst(a[0].o.(*nativeRegexp).re.FindString(m.concString(a[1])))
		},
		"(*regexp.Regexp).FindStringIndex": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return intSlice(a[0].o.(*nativeRegexp).re.FindStringIndex(m.concString(a[1])))
		},
		"(*regexp.Regexp).FindStringSubmatch": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return strSliceV(a[0].o.(*nativeRegexp).re.FindStringSubmatch(m.concString(a[1])))
		},
		"(*regexp.Regexp).FindStringSubmatchIndex": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return intSlice(a[0].o.(*nativeRegexp).re.FindStringSubmatchIndex(m.concString(a[1])))
		},
		"(*regexp.Regexp).FindAllString": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			n := int(int64(m.concV(a[2], nkind{w: 64, signed: true}).n))
			return strSliceV(a[0].o.(*nativeRegexp).re.FindAllString(m.concString(a[1]), n))
		},
		"(*regexp.Regexp).FindAllStringIndex": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			n := int(int64(m.concV(a[2], nkind{w: 64, signed: true}).n))
			r := a[0].o.(*nativeRegexp).re.FindAllStringIndex(m.concString(a[1]), n)
			return sliceOf(r, intSlice)
		},
		"(*regexp.Regexp).FindAllStringSubmatch": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			n := int(int64(m.concV(a[2], nkind{w: 64, signed: true}).n))
			r := a[0].o.(*nativeRegexp).re.FindAllStringSubmatch(m.concString(a[1]), n)
			return sliceOf(r, strSliceV)
		},
		"(*regexp.Regexp).FindAllStringSubmatchIndex": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			n := int(int64(m.concV(a[2], nkind{w: 64, signed: true}).n))
			r := a[0].o.(*nativeRegexp).re.FindAllStringSubmatchIndex(m.concString(a[1]), n)
			return sliceOf(r, intSlice)
		},
		"(*regexp.Regexp).Split": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			n := int(int64(m.concV(a[2], nkind{w: 64, signed: true}).n))
			return strSliceV(a[0].o.(*nativeRegexp).re.Split(m.concString(a[1]), n))
		},
		"(*regexp.Regexp).NumSubexp": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return V{n: uint64(a[0].o.(*nativeRegexp).re.NumSubexp())}
		},
		"(*regexp.Regexp).SubexpIndex": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return V{n: uint64(int64(a[0].o.(*nativeRegexp).re.SubexpIndex(m.concString(a[1]))))}
		},
		"(*regexp.Regexp).SubexpNames": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			return strSliceV(a[0].o.(*nativeRegexp).re.SubexpNames())
		},
		"(*regexp.Regexp).LiteralPrefix": func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			p, c := a[0].o.(*nativeRegexp).re.LiteralPrefix()
			return tup(sconst(p), bv(c))
		},
		"regexp.QuoteMeta": func(m *Machine, fr *Frame, fn *Fn, a []V) V { return sconst(regexp.QuoteMeta(m.concString(a[0]))) },
	}
	initAtomics()
	initStdlib()
}

// giveAway models another goroutine taking x from a pool and overwriting it:
// its fields, and the elements of the buffers it keeps emptied for reuse, become
// zero.
func (m *Machine) giveAway(x V) {
	i, ok := x.o.(*Iface)
	if !ok {
		return
	}
	pt, ok := i.t.t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	p, ok := i.v.o.(*V)
	if !ok {
		return
	}
	if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
		ag := p.o.(*Agg)
		for j := range ag.e {
			ft, ok := st.Field(j).Type().Underlying().(*types.Slice)
			sl, ok2 := ag.e[j].o.(*Slice)
			if !ok || !ok2 || len(sl.s) > 0 {
				continue // not emptied for reuse
			}
			els := sl.s[:cap(sl.s)]
			for k := range els {
				storeV(&els[k], zeroOf(ft.Elem()))
				m.given = append(m.given, &els[k])
			}
		}
	}
	storeV(p, zeroOf(pt.Elem()))
	m.given = append(m.given, p)
}

func isZeroV(v V) bool {
	if ag, ok := v.o.(*Agg); ok {
		for _, e := range ag.e {
			if !isZeroV(e) {
				return false
			}
		}
		return true
	}
	return v.n == 0 && v.o == nil
}

func sliceOf[T any](r []T, f func(T) V) V {
	if r == nil {
		return V{}
	}
	out := make([]V, len(r))
	for i := range r {
		out[i] = f(r[i])
	}
	return V{o: &Slice{s: out, el: 24}}
}

func intSlice(r []int) V {
	if r == nil {
		return V{}
	}
	out := make([]V, len(r))
	for i := range r {
		out[i] = V{n: uint64(int64(r[i]))}
	}
	return V{o: &Slice{s: out, el: 8}}
}

func strSliceV(r []string) V {
	if r == nil {
		return V{}
	}
	out := make([]V, len(r))
	for i := range r {
		out[i] = sconst(r[i])
	}
	return V{o: &Slice{s: out, el: 16}}
}

const vcwd = "/zzvcwd"

func cleanPath(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = vcwd + "/" + p
	}
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

func (ex *Explorer) addSymAssert() {
	ex.mu.Lock()
	ex.assertsSym++
	ex.mu.Unlock()
}

type nativeRegexp struct {
	re    *regexp.Regexp
	class *[256]bool // single ASCII character class, if any
}

var reCache sync.Map

func getRegexp(s string, m *Machine) *nativeRegexp {
	if r, ok := reCache.Load(s); ok {
		return r.(*nativeRegexp)
	}
	re, err := regexp.Compile(s)
	if err != nil {
		panic(&targetPanic{v: V{o: &Iface{m.p.strRT, sconst("regexp: Compile: " + err.Error())}}, pos: m.where()})
	}
	n := &nativeRegexp{re: re}
	if p, err := syntax.Parse(s, syntax.Perl); err == nil {
		var cl [256]bool
		ok := true
		switch p.Op {
		case syntax.OpCharClass:
			for i := 0; i < len(p.Rune); i += 2 {
				for r := p.Rune[i]; r <= p.Rune[i+1]; r++ {
					if r >= 0x80 {
						ok = false
						break
					}
					cl[r] = true
				}
			}
		case syntax.OpLiteral:
			if len(p.Rune) == 1 && p.Rune[0] < 0x80 && p.Flags&syntax.FoldCase == 0 {
				cl[p.Rune[0]] = true
			} else {
				ok = false
			}
		default:
			ok = false
		}
		if ok {
			n.class = &cl
		}
	}
	r, _ := reCache.LoadOrStore(s, n)
	return r.(*nativeRegexp)
}

func (m *Machine) inClass(b V, cl *[256]bool) V {
	if b.o == nil {
		return bv(cl[b.n])
	}
	e := b.o.(*Expr)
	r := m.ctx.fls
	for i := 0; i < 256; i++ {
		if cl[i] {
			r = m.ctx.Or(r, m.ctx.Bin(OEq, e, m.ctx.BV(uint64(i), 8)))
		}
	}
	return boolV(r)
}

func (m *Machine) byteEq(a, b V) V {
	if a.o == nil && b.o == nil {
		return bv(a.n == b.n)
	}
	return boolV(m.ctx.Bin(OEq, m.toExpr(a, 8), m.toExpr(b, 8)))
}

func (m *Machine) indexByte(s []V, c V) V {
	for i := range s {
		if m.branchV(m.byteEq(s[i], c)) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func indexStr(m *Machine, fr *Frame, fn *Fn, a []V) V {
	s, sub := a[0], a[1]
	x, ok1 := concStr(s)
	y, ok2 := concStr(sub)
	if ok1 && ok2 {
		return V{n: uint64(int64(strings.Index(x, y)))}
	}
	n, k := strLen(s), strLen(sub)
	for i := 0; i+k <= n; i++ {
		if m.branchV(m.strEq(strSlice(s, i, i+k), sub)) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

// mkError builds an error value (errors.New).
func (m *Machine) mkError(msg string) V { return m.mkErrorV(sconst(msg)) }
func (m *Machine) mkErrorV(msg V) V {
	f := m.p.pkgs["errors"].Func("New")
	return m.callV(nil, m.p.fn(f), []V{msg}, nil)
}

// formatInt renders a symbolic integer in decimal, forking on sign and length.
func (m *Machine) formatInt(e *Expr, signed bool) V {
	c := m.ctx
	w := e.w
	if w < 64 {
		e = c.ZExt(e, 64)
		w = 64
	}
	// use the narrow source when the value was extended
	src := e
	for src.op == OSExt || src.op == OZExt {
		if src.op == OZExt {
			signed2 := false
			_ = signed2
		}
		break
	}
	var pre []V
	abs := e
	if signed && m.branch(c.Bin(OSlt, e, c.BV(0, w))) {
		pre = []V{{n: '-'}}
		abs = c.Bin(OSub, c.BV(0, w), e)
	}
	nd := 1
	p := uint64(10)
	for nd < 20 {
		if m.branch(c.Bin(OUlt, abs, c.BV(p, w))) {
			break
		}
		nd++
		if nd < 20 {
			p *= 10
		}
	}
	// digits at the narrowest width that holds the number
	nw := uint8(64)
	switch {
	case nd <= 2:
		nw = 8
	case nd <= 4:
		nw = 16
	case nd <= 9:
		nw = 32
	}
	x := c.Trunc(abs, nw)
	digs := make([]V, nd)
	for i := nd - 1; i >= 0; i-- {
		d := x
		if nd > 1 {
			d = c.Bin(OURem, x, c.BV(10, nw))
			if i == 0 {
				d = x
			}
			x = c.Bin(OUDiv, x, c.BV(10, nw))
		}
		digs[i] = exprV(c.Bin(OAdd, c.Trunc(d, 8), c.BV('0', 8)), nkind{w: 8})
	}
	return mkStr(append(pre, digs...))
}

// mayBeFloat runs the acceptance automaton of Go float syntax over a symbolic
// string, forking on character classes; it over-approximates acceptance.
func (m *Machine) mayBeFloat(s V) bool {
	bs := strBytes(s)
	if len(bs) == 0 {
		return false
	}
	var cl [256]bool
	for _, c := range "0123456789+-.eEpPxX_aAbBcCdDfFnNiItTyY" {
		cl[c] = true
	}
	for _, b := range bs {
		if !m.branchV(m.inClass(b, &cl)) {
			return false
		}
	}
	var first [256]bool
	for _, c := range "0123456789+-.nNiI" {
		first[c] = true
	}
	return m.branchV(m.inClass(bs[0], &first))
}

// ---- fmt ---------------------------------------------------------------------------

func (m *Machine) fmtValue(fr *Frame, v V, verb byte) V {
	if v.o == nil {
		return sconst("<nil>")
	}
	i := v.o.(*Iface)
	if verb == 'v' || verb == 's' {
		for _, name := range []string{"Error", "String"} {
			if obj, _, _ := types.LookupFieldOrMethod(i.t.t, true, nil, name); obj != nil {
				if f, ok := obj.(*types.Func); ok {
					sig := f.Type().(*types.Signature)
					if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
						return m.callV(fr, m.p.method(i.t, f), []V{i.v}, nil)
					}
				}
			}
		}
	}
	k, ok := basicKind(i.t.t)
	if !ok {
		switch i.t.t.Underlying().(type) {
		case *types.Struct:
			return sconst("{...}")
		}
		return sconst("<" + i.t.String() + ">")
	}
	switch {
	case k.isStr:
		if verb == 'q' {
			return sconst(strconv.Quote(m.concString(i.v)))
		}
		return i.v
	case k.isBool:
		if m.branchV(i.v) {
			return sconst("true")
		}
		return sconst("false")
	case k.float:
		if e, ok := i.v.o.(*Expr); ok {
			i = &Iface{i.t, V{n: m.concretise(e)}}
		}
		return sconst(fmt.Sprint(f64(i.v)))
	}
	if verb == 'c' {
		if i.v.o == nil {
			return sconst(string(rune(i.v.n)))
		}
		return m.runeToString(i.v.o.(*Expr), k)
	}
	if i.v.o == nil {
		if k.signed {
			return sconst(fmt.Sprint(int64(i.v.n)))
		}
		return sconst(fmt.Sprint(i.v.n))
	}
	return m.formatInt(m.ext64(i.v, k), k.signed)
}

func (m *Machine) sprint(fr *Frame, args []V, ln bool) V {
	r := sconst("")
	prevStr := true
	for i, a := range args {
		isStr := false
		if a.o != nil {
			if b, ok := a.o.(*Iface).t.t.(*types.Basic); ok && b.Kind() == types.String {
				isStr = true
			}
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			r = strConcat(r, sconst(" "))
		}
		prevStr = isStr
		r = strConcat(r, m.fmtValue(fr, a, 'v'))
	}
	return r
}

func (m *Machine) sprintf(fr *Frame, format V, args []V) V {
	f := argStr(m, format)
	r := sconst("")
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			r = strConcat(r, sconst(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i < len(f) && strings.IndexByte("+-# 0123456789.*[w", f[i]) >= 0 {
			panic(engineErr("format " + f))
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			r = strConcat(r, sconst("%"))
			continue
		}
		if k >= len(args) {
			r = strConcat(r, sconst("%!"+string(f[i])+"(MISSING)"))
			continue
		}
		r = strConcat(r, m.fmtValue(fr, args[k], f[i]))
		k++
	}
	return r
}
