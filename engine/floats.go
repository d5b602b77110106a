package main

import (
	"go/token"
	"math"
)

// Floating-point terms that come from bounded integers are kept as integer
// terms: the solver then decides bit-vector queries instead of IEEE ones. Every
// rewrite below is exact (including the sign of zero) under the conditions it
// branches on.

const exactLim = int64(1) << 53

func (m *Machine) within(x *Expr, lim int64) *Expr {
	c := m.ctx
	if x.isConst() {
		v := int64(x.n)
		return c.Bool(v >= -lim && v <= lim)
	}
	if n := nbits(x); n < 64 && int64(1)<<(n-1) <= lim {
		return c.Bool(true)
	}
	return c.And(c.Bin(OSle, c.BV(uint64(-lim), 64), x), c.Bin(OSle, x, c.BV(uint64(lim), 64)))
}

// fint reads v as an exact integer term of magnitude at most 2^53; negz reports
// the constant -0 (read as 0).
func (m *Machine) fint(v V) (x *Expr, negz, ok bool) {
	if v.o == nil {
		f := f64(v)
		if f != math.Trunc(f) || math.Abs(f) > float64(exactLim) {
			return nil, false, false
		}
		return m.ctx.BV(uint64(int64(f)), 64), f == 0 && math.Signbit(f), true
	}
	e, _ := v.o.(*Expr)
	if e == nil || e.op != OFFromS || e.a.w != 64 {
		return nil, false, false
	}
	if !m.branch(m.within(e.a, exactLim)) {
		return nil, false, false
	}
	return e.a, false, true
}

func (m *Machine) fromS(x *Expr) V {
	if x.isConst() {
		return V{n: math.Float64bits(float64(int64(x.n)))}
	}
	return V{o: m.ctx.un(OFFromS, wF64, 0, x)}
}

func fzero(neg bool) V {
	if neg {
		return V{n: 1 << 63}
	}
	return V{}
}

// quotient reads v as an inexact quotient of exact integers: x/y with y != 0,
// |x| <= 2^52 and y not dividing x. Such a quotient never rounds to an integer.
func (m *Machine) quotient(v V) (x, y *Expr, ok bool) {
	e, _ := v.o.(*Expr)
	if e == nil || e.op != OFDiv {
		return
	}
	cx, cy := V{o: e.a}, V{o: e.b}
	if e.a.isConst() {
		cx = V{n: e.a.n}
	}
	if e.b.isConst() {
		cy = V{n: e.b.n}
	}
	x, _, ok = m.fint(cx)
	if !ok {
		return
	}
	y, _, ok = m.fint(cy)
	if !ok {
		return
	}
	c := m.ctx
	zero := c.BV(0, 64)
	ok = m.branch(m.within(x, exactLim/2)) && !m.branch(c.Bin(OEq, y, zero)) && !m.branch(c.Bin(OEq, c.narrow(OSRem, x, y), zero))
	return
}

// fexact performs op on exact integer operands when it can.
func (m *Machine) fexact(op token.Token, a, b V) (V, bool) {
	c := m.ctx
	zero := c.BV(0, 64)
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL:
		if op == token.EQL {
			if a.o != nil && a.o == b.o {
				if _, _, ok := m.quotient(a); ok {
					return V{n: 1}, true
				}
			}
			for i := 0; i < 2; i++ {
				if _, _, ok := m.quotient(a); ok {
					if _, _, ok := m.fint(b); ok {
						return V{}, true
					}
				}
				a, b = b, a
			}
		}
		x, _, ok := m.fint(a)
		if !ok {
			return V{}, false
		}
		y, _, ok := m.fint(b)
		if !ok {
			return V{}, false
		}
		switch op {
		case token.LSS:
			return boolV(c.Bin(OSlt, x, y)), true
		case token.LEQ:
			return boolV(c.Bin(OSle, x, y)), true
		case token.GTR:
			return boolV(c.Bin(OSlt, y, x)), true
		case token.GEQ:
			return boolV(c.Bin(OSle, y, x)), true
		}
		return boolV(c.eqInt(x, y)), true
	}
	if op == token.ADD {
		// zero plus a nonzero quotient
		if a.o == nil && f64(a) == 0 {
			if _, _, ok := m.quotient(b); ok {
				return b, true
			}
		}
		if b.o == nil && f64(b) == 0 {
			if _, _, ok := m.quotient(a); ok {
				return a, true
			}
		}
	}
	x, nx, ok := m.fint(a)
	if !ok {
		return V{}, false
	}
	y, ny, ok := m.fint(b)
	if !ok {
		return V{}, false
	}
	switch op {
	case token.ADD, token.SUB:
		if nx && ny {
			return V{}, false
		}
		if op == token.SUB && nx {
			if m.branch(c.Bin(OEq, y, zero)) {
				return fzero(true), true
			}
		}
		bop := OAdd
		if op == token.SUB {
			bop = OSub
		}
		r := c.narrow(bop, x, y)
		if !m.branch(m.within(r, exactLim)) {
			return V{}, false
		}
		return m.fromS(r), true
	case token.MUL:
		fit := c.Bool(false)
		for _, s := range [][2]uint{{26, 26}, {40, 12}, {12, 40}, {52, 1}, {1, 52}} {
			fit = c.Or(fit, c.And(m.within(x, 1<<s[0]), m.within(y, 1<<s[1])))
		}
		if !m.branch(fit) {
			return V{}, false
		}
		if nx || ny {
			if nx && ny {
				return fzero(false), true
			}
			if ny {
				x, y = y, x
			}
			return fzero(!m.branch(c.Bin(OSlt, y, zero))), true
		}
		if m.branch(c.Or(c.Bin(OEq, x, zero), c.Bin(OEq, y, zero))) {
			return fzero(m.branch(c.Or(c.Bin(OSlt, x, zero), c.Bin(OSlt, y, zero)))), true
		}
		return m.fromS(c.narrow(OMul, x, y)), true
	case token.QUO:
		if nx && !ny {
			if m.branch(c.Bin(OEq, y, zero)) {
				return V{n: math.Float64bits(math.NaN())}, true
			}
			return fzero(!m.branch(c.Bin(OSlt, y, zero))), true
		}
		if ny {
			if nx || m.branch(c.Bin(OEq, x, zero)) {
				return V{n: math.Float64bits(math.NaN())}, true
			}
			if m.branch(c.Bin(OSlt, x, zero)) {
				return V{n: math.Float64bits(math.Inf(1))}, true
			}
			return V{n: math.Float64bits(math.Inf(-1))}, true
		}
		if m.branch(c.Bin(OEq, y, zero)) {
			if m.branch(c.Bin(OEq, x, zero)) {
				return V{n: math.Float64bits(math.NaN())}, true
			}
			if m.branch(c.Bin(OSlt, x, zero)) {
				return V{n: math.Float64bits(math.Inf(-1))}, true
			}
			return V{n: math.Float64bits(math.Inf(1))}, true
		}
		if m.branch(c.Bin(OEq, c.narrow(OSRem, x, y), zero)) {
			if m.branch(c.Bin(OEq, x, zero)) {
				return fzero(m.branch(c.Bin(OSlt, y, zero))), true
			}
			return m.fromS(c.narrow(OSDiv, x, y)), true
		}
	}
	return V{}, false
}

// fneg negates an exact integer term.
func (m *Machine) fneg(v V) (V, bool) {
	x, _, ok := m.fint(v)
	if !ok {
		return V{}, false
	}
	if m.branch(m.ctx.Bin(OEq, x, m.ctx.BV(0, 64))) {
		return fzero(true), true
	}
	return m.fromS(m.ctx.narrow(OSub, m.ctx.BV(0, 64), x)), true
}

// ftoS truncates to a 64-bit integer.
func (m *Machine) ftoS(v V) (*Expr, bool) {
	if x, y, ok := m.quotient(v); ok {
		return m.ctx.narrow(OSDiv, x, y), true
	}
	x, _, ok := m.fint(v)
	return x, ok
}

// nbits is a width at which e, read as a signed number, is known to fit.
func nbits(e *Expr) int {
	n := int(e.w)
	switch e.op {
	case OConst:
		v := int64(sx(e.n, e.w))
		if v < 0 {
			v = ^v
		}
		return bitLen(uint64(v)) + 1
	case OSExt:
		n = nbits(e.a)
	case OZExt:
		n = int(e.a.w) + 1
	case OAdd, OSub:
		n = max(nbits(e.a), nbits(e.b)) + 1
	case OMul:
		n = nbits(e.a) + nbits(e.b)
	case OSDiv:
		n = nbits(e.a) + 1
	case OSRem:
		n = nbits(e.b)
	case OIte:
		n = max(nbits(e.b), nbits(e.c))
	}
	return min(n, int(e.w))
}

func rawBits(e *Expr) int {
	switch e.op {
	case OAdd, OSub:
		return max(nbits(e.a), nbits(e.b)) + 1
	case OMul:
		return nbits(e.a) + nbits(e.b)
	}
	return 1 << 10
}

// low gives the low w bits of e.
func (c *Ctx) low(e *Expr, w uint8) *Expr {
	if w < e.w {
		x := e
		for x.op == OSExt {
			x = x.a
		}
		switch x.op {
		case OAdd, OSub, OMul:
			if x == e || x.w >= w || rawBits(x) <= int(x.w) {
				return c.Bin(x.op, c.low(c.SExt(x.a, e.w), w), c.low(c.SExt(x.b, e.w), w))
			}
		}
	}
	return c.Trunc(e, w)
}

// eqInt compares 64-bit terms at the smallest width that holds both, so that
// equal sums and products built at different widths have one form.
func (c *Ctx) eqInt(x, y *Expr) *Expr {
	if x.w == 64 && x.op != OVar && y.op != OVar {
		if w := max(nbits(x), nbits(y)); w < 64 {
			return c.Bin(OEq, c.low(x, uint8(w)), c.low(y, uint8(w)))
		}
	}
	return c.Bin(OEq, x, y)
}

// narrow performs a signed product, quotient or remainder at the smallest width
// known to hold it.
func (c *Ctx) narrow(op Op, x, y *Expr) *Expr {
	if op == OSRem || op == OSDiv {
		if q := c.cancel(x, y); q != nil {
			if op == OSRem {
				return c.BV(0, x.w)
			}
			return q
		}
	}
	w := 0
	switch op {
	case OAdd, OSub:
		w = max(nbits(x), nbits(y)) + 1
	case OMul:
		w = nbits(x) + nbits(y)
	default:
		w = max(nbits(x), nbits(y)) + 1
	}
	if w >= int(x.w) {
		return c.Bin(op, x, y)
	}
	return c.SExt(c.Bin(op, c.low(x, uint8(w)), c.low(y, uint8(w))), x.w)
}

func strip(e *Expr) *Expr {
	for e.op == OSExt {
		e = e.a
	}
	return e
}

func factors(e *Expr, out []*Expr) []*Expr {
	x := strip(e)
	if x.op == OMul && rawBits(x) <= int(x.w) {
		return factors(x.b, factors(x.a, out))
	}
	return append(out, x)
}

// cancel divides the product x by its factor y (nonzero on this path).
func (c *Ctx) cancel(x, y *Expr) *Expr {
	fs := factors(x, nil)
	y = strip(y)
	if len(fs) < 2 || y.isConst() {
		return nil
	}
	for i, f := range fs {
		if f == y {
			var q *Expr
			for j, g := range fs {
				if j == i {
					continue
				}
				g = c.SExt(g, x.w)
				if q == nil {
					q = g
				} else {
					q = c.narrow(OMul, q, g)
				}
			}
			return q
		}
	}
	return nil
}
