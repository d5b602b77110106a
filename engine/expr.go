package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Expression DAG over booleans (w=0), bit-vectors (w=1..64) and IEEE-754
// doubles (w=wF64). Nodes are hash-consed per worker context.

const wF64 = 200

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot // bitwise not
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OExtract // n = lo, width = w
	OConcat
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OIte
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFFromS // signed bv -> f64
	OFFromU
	OFToS // f64 -> signed bv of width w (RTZ), amd64 saturation to min
	OFIsNaN
	OFTrunc // round toward zero to integral
	OFBits  // bv64 -> f64 reinterpretation
)

type VarSet [4]uint64

func (a VarSet) or(b VarSet) VarSet {
	for i := range a {
		a[i] |= b[i]
	}
	return a
}
func (a VarSet) meets(b VarSet) bool {
	return a[0]&b[0]|a[1]&b[1]|a[2]&b[2]|a[3]&b[3] != 0
}

const maxVars = 256

type Expr struct {
	op      Op
	w       uint8
	n       uint64
	a, b, c *Expr
	id      int32
	vars    VarSet
	h1, h2  uint64
	defined int32 // solver session in which it was defined
	memoEp  uint32
	memo    uint64
}

type ekey struct {
	op      Op
	w       uint8
	n       uint64
	a, b, c int32
}

type Ctx struct {
	tab    map[ekey]*Expr
	nextID int32
	epoch  uint32
	tru    *Expr
	fls    *Expr
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}}
	c.tru = c.mk(OConst, 0, 1, nil, nil, nil)
	c.fls = c.mk(OConst, 0, 0, nil, nil, nil)
	return c
}

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 29
	return h
}

func eid(e *Expr) int32 {
	if e == nil {
		return -1
	}
	return e.id
}

func (c *Ctx) mk(op Op, w uint8, n uint64, x, y, z *Expr) *Expr {
	k := ekey{op, w, n, eid(x), eid(y), eid(z)}
	if e, ok := c.tab[k]; ok {
		return e
	}
	e := &Expr{op: op, w: w, n: n, a: x, b: y, c: z, id: c.nextID}
	c.nextID++
	h1, h2 := uint64(0x9e3779b97f4a7c15), uint64(0x1234567890abcdef)
	t := uint64(op)<<8 | uint64(w)
	h1, h2 = mix(h1, t), mix(h2, t+77)
	h1, h2 = mix(h1, n), mix(h2, n+0x5555)
	for _, s := range [...]*Expr{x, y, z} {
		if s != nil {
			h1, h2 = mix(h1+1, s.h1), mix(h2+3, s.h2)
			e.vars = e.vars.or(s.vars)
		}
	}
	if op == OVar {
		if n >= maxVars {
			panic(engineErr("too many symbolic variables"))
		}
		e.vars[n/64] |= 1 << (n % 64)
	}
	e.h1, e.h2 = h1, h2
	c.tab[k] = e
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (e *Expr) isConst() bool { return e.op == OConst }

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.tru
	}
	return c.fls
}
func (c *Ctx) BV(v uint64, w uint8) *Expr { return c.mk(OConst, w, v&mask(w), nil, nil, nil) }
func (c *Ctx) F64(bitsv uint64) *Expr     { return c.mk(OConst, wF64, bitsv, nil, nil, nil) }
func (c *Ctx) Var(idx int, w uint8) *Expr { return c.mk(OVar, w, uint64(idx), nil, nil, nil) }

func evalOp(op Op, w uint8, n uint64, aw uint8, a, b, cc uint64) uint64 {
	m := mask(w)
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	fa, fb := math.Float64frombits(a), math.Float64frombits(b)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case ONot:
		return ^a & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	case OZExt:
		return a
	case OSExt:
		return uint64(sx(a, aw)) & m
	case OExtract:
		return a >> n & m
	case OEq:
		return bo(a == b)
	case OUlt:
		return bo(a < b)
	case OUle:
		return bo(a <= b)
	case OSlt:
		return bo(sx(a, aw) < sx(b, aw))
	case OSle:
		return bo(sx(a, aw) <= sx(b, aw))
	case OBNot:
		return a ^ 1
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OIte:
		if a != 0 {
			return b
		}
		return cc
	case OFAdd:
		return math.Float64bits(fa + fb)
	case OFSub:
		return math.Float64bits(fa - fb)
	case OFMul:
		return math.Float64bits(fa * fb)
	case OFDiv:
		return math.Float64bits(fa / fb)
	case OFNeg:
		return math.Float64bits(-fa)
	case OFEq:
		return bo(fa == fb)
	case OFLt:
		return bo(fa < fb)
	case OFLe:
		return bo(fa <= fb)
	case OFFromS:
		return math.Float64bits(float64(sx(a, aw)))
	case OFFromU:
		return math.Float64bits(float64(a))
	case OFToS:
		lim := math.Ldexp(1, int(w)-1)
		t := math.Trunc(fa)
		if !(t >= -lim && t < lim) {
			return 1 << (w - 1)
		}
		return uint64(int64(t)) & m
	case OFIsNaN:
		return bo(fa != fa)
	case OFTrunc:
		return math.Float64bits(math.Trunc(fa))
	case OFBits:
		return a
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

func (c *Ctx) un(op Op, w uint8, n uint64, a *Expr) *Expr {
	if a.isConst() {
		return c.mk(OConst, w, evalOp(op, w, n, a.w, a.n, 0, 0), nil, nil, nil)
	}
	return c.mk(op, w, n, a, nil, nil)
}

func (c *Ctx) Not(a *Expr) *Expr {
	if a.isConst() {
		return c.Bool(a.n == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(OBNot, 0, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a == c.fls || b == c.fls {
		return c.fls
	}
	if a == c.tru || a == b {
		return b
	}
	if b == c.tru {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBAnd, 0, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a == c.tru || b == c.tru {
		return c.tru
	}
	if a == c.fls || a == b {
		return b
	}
	if b == c.fls {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBOr, 0, 0, a, b, nil)
}

func (c *Ctx) Ite(k, a, b *Expr) *Expr {
	if k == c.tru || a == b {
		return a
	}
	if k == c.fls {
		return b
	}
	if a.w == 0 {
		if a == c.tru && b == c.fls {
			return k
		}
		if a == c.fls && b == c.tru {
			return c.Not(k)
		}
		if a.isConst() || b.isConst() {
			return c.Or(c.And(k, a), c.And(c.Not(k), b))
		}
	}
	return c.mk(OIte, a.w, 0, k, a, b)
}

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OZExt {
		a = a.a
		if a.w == w {
			return a
		}
	}
	return c.un(OZExt, w, 0, a)
}
func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == OSExt {
		return c.SExt(a.a, w)
	}
	return c.un(OSExt, w, 0, a)
}
func (c *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OZExt || a.op == OSExt {
		if a.a.w >= w {
			return c.Trunc(a.a, w)
		}
		if a.op == OZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	}
	if a.op == OIte {
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
		}
	}
	return c.un(OExtract, w, 0, a)
}

// isNarrow returns the narrow operand if e is a zero-extension.
func zx(e *Expr) *Expr {
	if e.op == OZExt {
		return e.a
	}
	return nil
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	rw := w
	switch op {
	case OEq, OUlt, OUle, OSlt, OSle, OFEq, OFLt, OFLe:
		rw = 0
	}
	if a.isConst() && b.isConst() {
		return c.mk(OConst, rw, evalOp(op, rw, 0, w, a.n, b.n, 0), nil, nil, nil)
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.n == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return c.Bin(OAdd, a.a, c.BV(a.b.n+b.n, w))
			}
		}
	case OSub:
		if b.isConst() {
			return c.Bin(OAdd, a, c.BV(-b.n, w))
		}
		if a == b {
			return c.BV(0, w)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.n == 0 {
				return b
			}
			if b.n == 1 {
				return a
			}
		}
	case OAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.n == 0 {
				return b
			}
			if b.n == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.n == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OXor:
		if a == b {
			return c.BV(0, w)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.n == 0 {
			return a
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.n == 0 {
			return a
		}
	case OEq:
		if a == b {
			return c.tru
		}
		if a.isConst() {
			a, b = b, a
		}
		if w == 0 {
			if b.isConst() {
				if b.n == 1 {
					return a
				}
				return c.Not(a)
			}
			break
		}
		if w == wF64 {
			break
		}
		if b.isConst() {
			switch a.op {
			case OZExt:
				if b.n > mask(a.a.w) {
					return c.fls
				}
				return c.Bin(OEq, a.a, c.BV(b.n, a.a.w))
			case OSExt:
				t := c.BV(b.n, a.a.w)
				if uint64(sx(t.n, a.a.w))&mask(w) != b.n {
					return c.fls
				}
				return c.Bin(OEq, a.a, t)
			case OAdd:
				if a.b.isConst() {
					return c.Bin(OEq, a.a, c.BV(b.n-a.b.n, w))
				}
			case OXor:
				if a.b.isConst() {
					return c.Bin(OEq, a.a, c.BV(b.n^a.b.n, w))
				}
			case OIte:
				if a.b.isConst() && a.c.isConst() {
					return c.Ite(a.a, c.Bool(a.b.n == b.n), c.Bool(a.c.n == b.n))
				}
				if a.b.isConst() {
					if a.b.n == b.n {
						return c.Or(a.a, c.Bin(OEq, a.c, b))
					}
					return c.And(c.Not(a.a), c.Bin(OEq, a.c, b))
				}
				if a.c.isConst() {
					if a.c.n == b.n {
						return c.Or(c.Not(a.a), c.Bin(OEq, a.b, b))
					}
					return c.And(a.a, c.Bin(OEq, a.b, b))
				}
			}
		} else {
			if (a.op == OZExt && b.op == OZExt || a.op == OSExt && b.op == OSExt) && a.a.w == b.a.w {
				return c.Bin(OEq, a.a, b.a)
			}
			if a.id > b.id {
				a, b = b, a
			}
		}
	case OUlt, OUle, OSlt, OSle:
		if a == b {
			return c.Bool(op == OUle || op == OSle)
		}
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		za, zb := zx(a), zx(b)
		if za != nil && zb != nil && za.w == zb.w {
			return c.Bin(uop, za, zb)
		}
		if za != nil && b.isConst() {
			if op == OSlt || op == OSle {
				if sx(b.n, w) < 0 {
					return c.fls
				}
			}
			if b.n > mask(za.w) {
				return c.tru
			}
			return c.Bin(uop, za, c.BV(b.n, za.w))
		}
		if zb != nil && a.isConst() {
			if op == OSlt || op == OSle {
				if sx(a.n, w) < 0 {
					return c.tru
				}
			}
			if a.n > mask(zb.w) {
				return c.fls
			}
			return c.Bin(uop, c.BV(a.n, zb.w), zb)
		}
		if (op == OSlt || op == OSle) && a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return c.Bin(op, a.a, b.a)
		}
		if (op == OSlt || op == OSle) && a.op == OSExt && b.isConst() {
			aw := a.a.w
			lo, hi := -(int64(1) << (aw - 1)), int64(1)<<(aw-1)-1
			bv := sx(b.n, w)
			if bv > hi {
				return c.tru
			}
			if bv < lo {
				return c.fls
			}
			return c.Bin(op, a.a, c.BV(b.n, aw))
		}
		if (op == OSlt || op == OSle) && b.op == OSExt && a.isConst() {
			bw := b.a.w
			lo, hi := -(int64(1) << (bw - 1)), int64(1)<<(bw-1)-1
			av := sx(a.n, w)
			if av > hi {
				return c.fls
			}
			if av < lo {
				return c.tru
			}
			return c.Bin(op, c.BV(a.n, bw), b.a)
		}
		if op == OUlt && b.isConst() && b.n == 0 {
			return c.fls
		}
		if op == OUle && a.isConst() && a.n == 0 {
			return c.tru
		}
		if op == OUle && b.isConst() && b.n == mask(w) {
			return c.tru
		}
		if op == OUlt && b.isConst() && b.n == 1 {
			return c.Bin(OEq, a, c.BV(0, w))
		}
	}
	return c.mk(op, rw, 0, a, b, nil)
}

// eval evaluates e under the model (by variable index).
func (c *Ctx) eval(e *Expr, model []uint64) uint64 {
	c.epoch++
	return c.ev(e, model)
}

func (c *Ctx) ev(e *Expr, model []uint64) uint64 {
	switch e.op {
	case OConst:
		return e.n
	case OVar:
		if int(e.n) < len(model) {
			return model[e.n] & mask(e.w)
		}
		return 0
	}
	if e.memoEp == c.epoch {
		return e.memo
	}
	var r uint64
	if e.op == OIte {
		if c.ev(e.a, model) != 0 {
			r = c.ev(e.b, model)
		} else {
			r = c.ev(e.c, model)
		}
	} else {
		var x, y uint64
		x = c.ev(e.a, model)
		if e.b != nil {
			y = c.ev(e.b, model)
		}
		r = evalOp(e.op, e.w, e.n, e.a.w, x, y, 0)
	}
	e.memoEp, e.memo = c.epoch, r
	return r
}

// ---- SMT-LIB printing -------------------------------------------------

func sortName(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case wF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func ref(e *Expr) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.n != 0 {
				return "true"
			}
			return "false"
		}
		if e.w == wF64 {
			return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", e.n)
		}
		return fmt.Sprintf("(_ bv%d %d)", e.n, e.w)
	case OVar:
		return varName(int(e.n), e.w)
	}
	return fmt.Sprintf("e%d", e.id)
}

func varName(i int, w uint8) string { return fmt.Sprintf("v%d_%d", i, w) }

var opNames = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or", OIte: "ite",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN", OFTrunc: "fp.roundToIntegral RTZ",
	OFFromS: "(_ to_fp 11 53) RNE", OFFromU: "(_ to_fp_unsigned 11 53) RNE", OFBits: "(_ to_fp 11 53)",
}

func smtBody(e *Expr) string {
	var sb strings.Builder
	switch e.op {
	case OZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", e.w-e.a.w, ref(e.a))
		return sb.String()
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", e.w-e.a.w, ref(e.a))
		return sb.String()
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", e.n+uint64(e.w)-1, e.n, ref(e.a))
		return sb.String()
	case OFToS:
		lo := ref2f(-math.Ldexp(1, int(e.w)-1))
		hi := ref2f(math.Ldexp(1, int(e.w)-1))
		x := ref(e.a)
		fmt.Fprintf(&sb, "(ite (and (fp.geq (fp.roundToIntegral RTZ %s) %s) (fp.lt (fp.roundToIntegral RTZ %s) %s)) ((_ fp.to_sbv %d) RTZ %s) (_ bv%d %d))",
			x, lo, x, hi, e.w, x, uint64(1)<<(e.w-1), e.w)
		return sb.String()
	}
	sb.WriteString("(" + opNames[e.op] + " " + ref(e.a))
	if e.b != nil {
		sb.WriteString(" " + ref(e.b))
	}
	if e.c != nil {
		sb.WriteString(" " + ref(e.c))
	}
	sb.WriteString(")")
	return sb.String()
}

func ref2f(f float64) string {
	return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", math.Float64bits(f))
}

func bitLen(v uint64) int { return bits.Len64(v) }
