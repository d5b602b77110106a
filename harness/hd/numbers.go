package hd

import (
	"helena/core"
	"math"

	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

func isNumber(v core.Value, want int64) bool {
	x, ok := v.(core.IntegerValue)
	return ok && x.Value == want
}

// IntegerArithmetic: + - * as prefix commands and as infix chains with the
// usual precedence, on exact integers.
func IntegerArithmetic() {
	scope := NewRoot(nil)
	lim := sym.Param("R", 1000)
	n := 1 + sym.Choice("n", sym.Param("N", 3))
	vs := make([]int64, n)
	args := []core.Value{}
	real := sym.Bool("real")
	for i := range vs {
		vs[i] = int64(sym.Int("v", -lim, lim))
		var v core.Value = core.INT(vs[i])
		if real && i == 0 {
			v = core.REAL(float64(vs[i]))
		}
		args = append(args, v)
	}
	var r core.Result
	var want int64
	switch sym.Choice("form", 4) {
	case 0:
		r = Call(scope, append([]core.Value{S("+")}, args...)...)
		for _, v := range vs {
			want += v
		}
	case 1:
		r = Call(scope, append([]core.Value{S("-")}, args...)...)
		want = vs[0]
		for _, v := range vs[1:] {
			want -= v
		}
		if n == 1 {
			want = -want
		}
	case 2:
		r = Call(scope, append([]core.Value{S("*")}, args...)...)
		want = 1
		for _, v := range vs {
			want *= v
		}
	case 3:
		chain := []core.Value{args[0]}
		product := vs[0]
		for i := 1; i < n; i++ {
			op := sym.Choice("op", 3)
			chain = append(chain, S([...]string{"+", "-", "*"}[op]), args[i])
			switch op {
			case 0:
				want += product
				product = vs[i]
			case 1:
				want += product
				product = -vs[i]
			case 2:
				product *= vs[i]
			}
		}
		want += product
		r = Call(scope, chain...)
	}
	if assertOK(r, "integer arithmetic") {
		sym.Assert(isNumber(r.Value, want), "exact integer result")
	}
	Observe("r", r)
	sym.Reach("end")
}

// Division: exact quotients are integers, others are the nearest real.
func Division() {
	scope := NewRoot(nil)
	lim := sym.Param("R", 64)
	q := int64(sym.Int("q", -lim, lim))
	d := int64(sym.Int("d", -lim, lim))
	k := int64(sym.Int("k", -lim, lim))
	var r core.Result
	infix := sym.Bool("infix")
	switch sym.Choice("kind", 3) {
	case 0: // exact
		sym.Assume(d != 0)
		if infix {
			r = Call(scope, core.INT(q*d), S("/"), core.INT(d))
		} else {
			r = Call(scope, S("/"), core.INT(q*d), core.INT(d))
		}
		sym.Assert(r.Code == core.ResultCode_OK && isNumber(r.Value, q), "exact quotient")
	case 1: // left to right
		sym.Assume(d != 0 && k != 0)
		if infix {
			r = Call(scope, core.INT(q*d*k), S("/"), core.INT(d), S("/"), core.INT(k))
		} else {
			r = Call(scope, S("/"), core.INT(q*d*k), core.INT(d), core.INT(k))
		}
		sym.Assert(r.Code == core.ResultCode_OK && isNumber(r.Value, q), "left associative quotient")
	case 2: // halves
		if infix {
			r = Call(scope, core.INT(2*q+1), S("/"), core.INT(2))
		} else {
			r = Call(scope, S("/"), core.INT(2*q+1), core.INT(2))
		}
		x, ok := r.Value.(core.RealValue)
		sym.Assert(r.Code == core.ResultCode_OK && ok && x.Value == float64(2*q+1)/2, "real quotient")
	}
	Observe("r", r)
	sym.Reach("end")
}

// NumberComparison: all six comparisons agree with the numbers' order, for
// integers up to 2^53 in magnitude and any two doubles.
func NumberComparison() {
	scope := NewRoot(nil)
	const lim = 1 << 53
	a, b := sym.Int64("a"), sym.Int64("b")
	var va, vb core.Value
	var lt, gt, eq bool
	switch sym.Choice("kinds", 4) {
	case 0:
		sym.Assume(a >= -lim && a <= lim && b >= -lim && b <= lim)
		va, vb = core.INT(a), core.INT(b)
		lt, gt, eq = a < b, a > b, a == b
	case 1:
		fa, fb := math.Float64frombits(uint64(a)), math.Float64frombits(uint64(b))
		va, vb = core.REAL(fa), core.REAL(fb)
		lt, gt, eq = fa < fb, fa > fb, fa == fb
	case 2:
		fb := math.Float64frombits(uint64(b))
		sym.Assume(a >= -lim && a <= lim)
		va, vb = core.INT(a), core.REAL(fb)
		lt, gt, eq = float64(a) < fb, float64(a) > fb, float64(a) == fb
	case 3:
		fa := math.Float64frombits(uint64(a))
		sym.Assume(b >= -lim && b <= lim)
		va, vb = core.REAL(fa), core.INT(b)
		lt, gt, eq = fa < float64(b), fa > float64(b), fa == float64(b)
	}
	op := sym.Choice("op", 6)
	name := [...]string{"==", "!=", "<", "<=", ">", ">="}[op]
	want := [...]bool{eq, !eq, lt, lt || eq, gt, gt || eq}[op]
	r := Call(scope, va, S(name), vb)
	sym.Assert(r.Code == core.ResultCode_OK && IsBool(r.Value, want), "comparison result")
	Observe("r", r)
	sym.Reach("end")
}

// numberWord is a word that may or may not be a number.
func numeric(name string) (core.Value, bool) {
	switch sym.Choice(name, 12) {
	case 0:
		return core.INT(6), true
	case 1:
		return core.REAL(1.5), true
	case 2:
		return S(string(rune('0' + sym.Choice(name+"d", 10)))), true
	case 3:
		return S("-2.5"), true
	case 4:
		return S("1e3"), true
	case 5:
		return S("abc"), false
	case 6:
		return S(""), false
	case 7:
		return core.TRUE, false
	case 8:
		return core.NIL, false
	case 9:
		return L(core.INT(1)), false
	case 10:
		return T(core.INT(1)), false
	}
	return Script("1"), true // scripts read as their source text
}

// NumberArguments: arity and operand errors of the number commands.
func NumberArguments() {
	scope := NewRoot(nil)
	n := sym.Choice("n", sym.Param("N", 4))
	args := make([]core.Value, n)
	valid := true
	for i := range args {
		v, ok := numeric("v")
		args[i] = v
		valid = valid && ok
	}
	op := sym.Choice("op", 4)
	min := [...]int{1, 1, 1, 2}[op]
	r := Call(scope, append([]core.Value{S([...]string{"+", "-", "*", "/"}[op])}, args...)...)
	if n < min || !valid {
		assertError(r, "invalid operands are an error")
	} else if assertOK(r, "valid operands") {
		switch r.Value.(type) {
		case core.IntegerValue, core.RealValue:
		default:
			sym.Fail("arithmetic gives a number")
		}
	}
	Observe("r", r)
	sym.Reach("end")
}

// InfixArguments: chains of operators and operands in any order.
func InfixArguments() {
	scope := NewRoot(nil)
	n := sym.Choice("n", sym.Param("N", 5))
	args := []core.Value{core.INT(6)}
	kinds := []int{}
	for i := 0; i < n; i++ {
		k := sym.Choice("k", 12)
		kinds = append(kinds, k)
		args = append(args, [...]core.Value{S("+"), S("-"), S("*"), S("/"), S("=="), S("<"), S("subcommands"), core.INT(2), S("3"), S("foo"), core.NIL, L()}[k])
	}
	r := Call(scope, args...)
	isNum := func(k int) bool { return k == 7 || k == 8 }
	valid := false
	switch {
	case n == 0:
		valid = true
	case kinds[0] < 4:
		valid = n%2 == 0
		for i, k := range kinds {
			if i%2 == 0 && k >= 4 || i%2 == 1 && !isNum(k) {
				valid = false
			}
		}
	case kinds[0] < 6:
		valid = n == 2 && isNum(kinds[1])
	case kinds[0] == 6:
		valid = n == 1
	}
	if valid {
		assertOK(r, "valid expression")
		if n == 0 {
			sym.Assert(isNumber(r.Value, 6), "a number alone is itself")
		}
	} else {
		assertError(r, "invalid expressions are errors")
	}
	Observe("r", r)
	sym.Reach("end")
}

// ---- logic ----

// condition is a value, a script, or a recorded script.
type condOutcome struct {
	value bool
	ok    bool
	r     core.Result // what evaluating the operand gives when not a boolean
}

// condOperand builds an operand whose evaluation is recorded in log.
func condOperand(scope *hel.Scope, i int, log *[]int, out *condOutcome) core.Value {
	name := "c" + string(rune('0'+i))
	mk := func() core.Value {
		switch sym.Choice("v", 7) {
		case 0:
			out.value, out.ok = true, true
			return core.TRUE
		case 1:
			out.value, out.ok = false, true
			return core.FALSE
		case 2:
			out.value, out.ok = true, true
			return S("true")
		case 3:
			out.value, out.ok = false, true
			return S("false")
		case 4:
			return S("maybe")
		case 5:
			return core.INT(1)
		}
		return core.NIL
	}
	if !sym.Bool("script") {
		return mk()
	}
	Reg(scope, name, func(args []core.Value, _ *hel.Scope) core.Result {
		*log = append(*log, i)
		v := mk()
		r := AnyResult("code", v)
		sym.Assume(r.Code != core.ResultCode_YIELD)
		if r.Code != core.ResultCode_OK {
			out.ok = false
			out.r = r
		}
		return r
	})
	return Script("unit; " + name)
}

// Logic: ! && || evaluate left to right, stop at the first decisive operand
// and propagate other codes.
func Logic() {
	scope := NewRoot(nil)
	scope.RegisterNamedCommand("unit", Cmd(func(args []core.Value, _ *hel.Scope) core.Result { return core.OK(core.NIL) }))
	op := sym.Choice("op", 3)
	n := 1 + sym.Choice("n", sym.Param("N", 3))
	if op == 2 {
		n = 1
	}
	var log []int
	outs := make([]condOutcome, n)
	args := []core.Value{S([...]string{"&&", "||", "!"}[op])}
	isScript := make([]bool, n)
	for i := range outs {
		v := condOperand(scope, i, &log, &outs[i])
		_, isScript[i] = v.(core.ScriptValue)
		args = append(args, v)
	}
	pools()
	r := Call(scope, args...)
	assertAlone()
	// reference
	var want core.Result
	var wantLog []int
	want = core.OK(core.BOOL(op == 0))
	for i := range outs {
		if isScript[i] {
			wantLog = append(wantLog, i)
			if i >= len(log) && len(log) < len(wantLog) {
				sym.Fail("every operand up to the decisive one is evaluated")
				return
			}
		}
		o := outs[i]
		if isScript[i] && o.r.Value != nil {
			want = o.r
			break
		}
		if !o.ok {
			want = core.ERROR("bad boolean")
			break
		}
		if op == 2 {
			want = core.OK(core.BOOL(!o.value))
			break
		}
		if o.value == (op == 1) {
			want = core.OK(core.BOOL(op == 1))
			break
		}
	}
	same := len(log) == len(wantLog)
	for i := range log {
		same = same && i < len(wantLog) && log[i] == wantLog[i]
	}
	sym.Assert(same, "operands are evaluated left to right up to the decisive one")
	sym.Assert(r.Code == want.Code, "logic result code")
	if want.Code != core.ResultCode_ERROR {
		sym.Assert(Same(r.Value, want.Value), "logic result")
	}
	Observe("r", r)
	sym.Reach("end")
}

// TrueFalse: the branches of booleans as commands.
func TrueFalse() {
	scope := NewRoot(nil)
	b := sym.Bool("b")
	n := sym.Choice("n", 5)
	word := sym.Choice("word", 5)
	head := core.Value(core.BOOL(b))
	if sym.Bool("text") {
		head = S([...]string{"false", "true"}[b2i(b)])
	}
	args := []core.Value{head}
	if n > 0 {
		args = append(args, [...]core.Value{S("?"), S("!?"), S("subcommands"), S("x"), L()}[word])
	}
	branches := []core.Value{mixed("x", 0, 11), mixed("y", 0, 11), S("z")}
	for i := 1; i < n; i++ {
		args = append(args, branches[i-1])
	}
	r := Call(scope, args...)
	switch {
	case n == 0:
		sym.Assert(r.Code == core.ResultCode_OK && IsBool(r.Value, b), "a boolean alone is itself")
	case word < 2 && n >= 2 && n <= 3:
		if assertOK(r, "boolean branches") {
			want := core.Value(core.NIL)
			if b == (word == 0) {
				want = branches[0]
			} else if n == 3 {
				want = branches[1]
			}
			sym.Assert(Same(r.Value, want), "boolean selects its branch")
		}
	case word == 2 && n == 1:
		assertOK(r, "boolean subcommands")
	default:
		assertError(r, "invalid boolean subcommands are errors")
	}
	Observe("r", r)
	sym.Reach("end")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var reals = []float64{0, 1 << 62, -3, 0.5, 1e300, 1, -1, 2, -1.5, 1 << 31, 1<<32 + 1, -(1 << 63), 1e19, 5e-324, math.Inf(1)}

// whole: f is a whole number within 64 bits.
func whole(f float64) bool {
	return f >= -(1<<63) && f < 1<<63 && float64(int64(f)) == f
}

// someNumber: an operand of arithmetic. Whole numbers are integer or real
// values, others are real values.
func someNumber(symbolic bool) (core.Value, float64) {
	if symbolic {
		f := math.Float64frombits(uint64(sym.Int64("f")))
		return core.REAL(f), f
	}
	f := reals[sym.Choice("number", min(sym.Param("NUMBERS", len(reals)), len(reals)))]
	if whole(f) && !sym.Bool("real") {
		return core.INT(int64(f)), f
	}
	return core.REAL(f), f
}

// sameNumber: v is the number f: an integer value exactly when f is a whole
// number within 64 bits, and a real value otherwise.
func sameNumber(v core.Value, f float64) bool {
	switch x := v.(type) {
	case core.IntegerValue:
		return float64(x.Value) == f && f < 1<<63
	case core.RealValue:
		return x.Value == f && !whole(f) || f != f && x.Value != x.Value
	}
	return false
}

// RealArithmetic: the four operators, as prefix commands and as infix chains,
// are double arithmetic applied from left to right, products and quotients
// first.
func RealArithmetic() {
	scope := NewRoot(nil)
	n := 1 + sym.Choice("n", sym.Param("N", 3))
	fs := make([]float64, n)
	args := make([]core.Value, n)
	for i := range fs {
		args[i], fs[i] = someNumber(sym.Param("SYM", 0) == 1)
	}
	names := [...]string{"+", "-", "*", "/"}
	var r core.Result
	var want float64
	if form := sym.Choice("form", 5); form < 4 {
		sym.Assume(form < 3 || n > 1)
		r = Call(scope, append([]core.Value{S(names[form])}, args...)...)
		want = fs[0]
		for _, f := range fs[1:] {
			want = operate(form, want, f)
		}
		if form == 1 && n == 1 {
			want = -want
		}
	} else {
		sym.Assume(n > 1)
		chain := []core.Value{args[0]}
		term := fs[0]
		first := true
		for i := 1; i < n; i++ {
			op := sym.Choice("op", 4)
			chain = append(chain, S(names[op]), args[i])
			if op >= 2 {
				term = operate(op, term, fs[i])
				continue
			}
			if first {
				want = term
			} else {
				want += term
			}
			first = false
			term = fs[i]
			if op == 1 {
				term = -term
			}
		}
		if first {
			want = term
		} else {
			want += term
		}
		r = Call(scope, chain...)
	}
	if assertOK(r, "arithmetic on numbers") {
		sym.Assert(sameNumber(r.Value, want), "result is that of double arithmetic")
	}
	Observe("r", r)
	sym.Reach("end")
}

func operate(op int, a, b float64) float64 {
	switch op {
	case 0:
		return a + b
	case 1:
		return a - b
	case 2:
		return a * b
	}
	return a / b
}
