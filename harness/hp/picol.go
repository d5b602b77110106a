// Package hp holds the harnesses of the Picol dialect.
package hp

import (
	"helena/core"
	picol "helena/picol_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

type cmd func(args []core.Value, scope *picol.PicolScope) core.Result

func (c cmd) Execute(args []core.Value, context any) core.Result {
	s, _ := context.(*picol.PicolScope)
	return c(args, s)
}

func newRoot() *picol.PicolScope {
	scope := picol.NewPicolScope(nil)
	picol.InitPicolCommands(scope)
	return scope
}

func parse(src string) core.Script {
	r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
	sym.Assert(r.Success, "harness: script parses")
	return *r.Script
}

func run(scope *picol.PicolScope, src string) core.Result {
	return scope.Evaluator.EvaluateScript(parse(src))
}

func script(src string) core.Value { return core.NewScriptValue(parse(src), src) }

func letter(n int) string { return string(rune('0' + n)) }

// world records the calls of act, each of which ends in any way.
type world struct {
	scope *picol.PicolScope
	tags  []string
	rs    []core.Result
	limit int
	at    int
}

func newWorld(limit int) *world {
	w := &world{scope: newRoot(), limit: limit}
	w.scope.Commands["act"] = cmd(func(args []core.Value, _ *picol.PicolScope) core.Result {
		_, tag := core.ValueToString(args[1])
		var r core.Result
		if len(w.tags) >= w.limit {
			r = core.ERROR("limit")
		} else {
			var v core.Value = S("r" + letter(len(w.tags)))
			if tag[0] == 't' {
				switch sym.Choice("truth", 4) {
				case 0:
					v = core.TRUE
				case 1:
					v = core.FALSE
				case 2:
					v = S("nob")
				}
			} else {
				switch sym.Choice("value", 2+sym.Param("VALUES", 0)) {
				case 1:
					v = core.NIL
				case 2:
					v = core.FALSE
				case 3:
					v = S("")
				case 4:
					v = T()
				}
			}
			r.Value = v
			switch sym.Choice("code", 5) {
			case 0:
				r.Code = core.ResultCode_OK
			case 1:
				r.Code = core.ResultCode_RETURN
			case 2:
				r.Code = core.ResultCode_BREAK
			case 3:
				r.Code = core.ResultCode_CONTINUE
			case 4:
				r.Code = core.ResultCode_ERROR
			}
		}
		w.tags = append(w.tags, tag)
		w.rs = append(w.rs, r)
		return r
	})
	return w
}

// call is the next call in the reference.
func (w *world) call(tag string) core.Result {
	if w.at >= len(w.tags) {
		sym.Fail("everything that has to run runs")
		return core.ERROR("missing")
	}
	sym.Assert(w.tags[w.at] == tag, "what runs is what has to run, in order")
	r := w.rs[w.at]
	w.at++
	return r
}

func (w *world) body(tags ...string) core.Result {
	r := core.OK(core.NIL)
	for _, t := range tags {
		r = w.call(t)
		if r.Code != core.ResultCode_OK {
			return r
		}
	}
	return r
}

// test is the truth of a test block: ok when it has one, else how it ends.
func (w *world) test(tag string) (bool, *core.Result) {
	r := w.call(tag)
	if r.Code != core.ResultCode_OK {
		return false, &r
	}
	if b, ok := r.Value.(core.BooleanValue); ok {
		return b.Value, nil
	}
	e := core.ERROR("?")
	return false, &e
}

func empty(r core.Result) core.Result {
	if r.Code == core.ResultCode_OK && IsNil(r.Value) {
		return core.OK(S(""))
	}
	return r
}

// Control: if, while, for, &&, ||, ! and procedures run tests and bodies in
// order with any endings.
func Control() {
	w := newWorld(sym.Param("L", 4))
	var src string
	var want core.Result
	form := sym.Choice("form", 8)
	src = [...]string{
		"if {act t} {act b; act c}",
		"if {act t} {act b; act c} else {act d}",
		"while {act t} {act b; act c}",
		"for {act s} {act t} {act n} {act b; act c}",
		"&& {act t} {act tu} {act tv}",
		"|| {act t} {act tu} {act tv}",
		"! {act t}",
		"proc p {} {act b; act c}; set x [p]; act d",
	}[form]
	got := run(w.scope, src)
	loop := func(next bool) core.Result {
		for {
			ok, end := w.test("t")
			if end != nil {
				return *end
			}
			if !ok {
				return core.OK(S(""))
			}
			r := w.body("b", "c")
			switch r.Code {
			case core.ResultCode_BREAK:
				return core.OK(S(""))
			case core.ResultCode_OK, core.ResultCode_CONTINUE:
			default:
				return r
			}
			if next {
				if r := w.call("n"); r.Code != core.ResultCode_OK {
					return r
				}
			}
		}
	}
	switch form {
	case 0, 1:
		ok, end := w.test("t")
		switch {
		case end != nil:
			want = *end
		case ok:
			want = empty(w.body("b", "c"))
		case form == 0:
			want = core.OK(S(""))
		default:
			want = empty(w.body("d"))
		}
	case 2:
		want = loop(false)
	case 3:
		want = w.call("s")
		if want.Code == core.ResultCode_OK {
			want = loop(true)
		}
	case 4, 5:
		want = core.OK(core.BOOL(form == 4))
		for _, t := range []string{"t", "tu", "tv"} {
			ok, end := w.test(t)
			if end != nil {
				want = *end
				break
			}
			if ok != (form == 4) {
				want = core.OK(core.BOOL(ok))
				break
			}
		}
	case 6:
		ok, end := w.test("t")
		if end != nil {
			want = *end
		} else {
			want = core.OK(core.BOOL(!ok))
		}
	case 7:
		r := w.body("b", "c")
		if r.Code == core.ResultCode_ERROR {
			want = r
		} else {
			x := w.scope.Variables["x"]
			if IsNil(r.Value) {
				sym.Assert(x != nil && IsStr(x, ""), "procedures give the value their body ends with")
			} else {
				sym.Assert(x != nil && Same(x, r.Value), "procedures give the value their body ends with")
			}
			want = w.call("d")
		}
	}
	sym.Assert(w.at == len(w.tags), "nothing else runs")
	sym.Assert(got.Code == want.Code, "the result code")
	if !IsStr(want.Value, "?") {
		sym.Assert(Same(got.Value, want.Value), "the result value")
	}
	Observe("r", got)
	sym.ObserveInt("acts", len(w.tags))
	sym.Reach("end")
}

// conditions are condition values and their truth: -1 for none.
var conditions = []struct {
	v     core.Value
	truth int
}{
	{core.TRUE, 1}, {core.FALSE, 0}, {S("true"), 1}, {S("yes"), 1}, {S("1"), 1},
	{S("false"), 0}, {S("no"), 0}, {S("0"), 0}, {S("2"), 1}, {S("-1"), 1}, {S("00"), 0},
	{S("nob"), -1}, {S(""), -1}, {S("1.5"), -1}, {nil, 2}, {nil, 3}, {T(S("true")), -1},
}

// Conditions: every kind of condition has the truth it denotes, wherever it is
// tested.
func Conditions() {
	scope := newRoot()
	c := conditions[sym.Choice("condition", len(conditions))]
	truth := c.truth
	if c.truth == 2 || c.truth == 3 {
		i := sym.Int64("i")
		v := core.INT(i)
		truth = 0
		if i != 0 {
			truth = 1
		}
		c.v = v
		if c.truth == 3 {
			// a block that gives the value of a variable, a boolean
			b := sym.Bool("b")
			truth = 0
			if b {
				truth = 1
			}
			scope.Variables["b"] = core.BOOL(b)
			c.v = script("set b")
		}
	}
	scope.Variables["v"] = c.v
	n := 0
	scope.Commands["act"] = cmd(func(args []core.Value, _ *picol.PicolScope) core.Result {
		n++
		sym.Assume(n < 3)
		return core.OK(S("acted"))
	})
	form := sym.Choice("form", 9)
	got := run(scope, [...]string{
		"! $v", "&& $v", "|| $v", "&& 1 $v", "|| 0 $v", "if $v {act}", "if $v {act} else {return no}", "while $v {act; break}", "for {} $v {} {act; break}",
	}[form])
	if truth < 0 {
		sym.Assert(got.Code == core.ResultCode_ERROR && n == 0, "other values are not conditions")
		sym.Reach("error")
		return
	}
	want := core.OK(core.BOOL(truth == 1))
	acts := truth
	switch form {
	case 0:
		want, acts = core.OK(core.BOOL(truth == 0)), 0
	case 1, 2, 3, 4:
		acts = 0
	case 5, 6:
		want = core.OK(S("acted"))
		if truth == 0 {
			want = core.OK(S(""))
			if form == 6 {
				want = core.RETURN(S("no"))
			}
		}
	default:
		want = core.OK(S(""))
	}
	sym.Assert(n == acts, "the body runs when the condition is true")
	sym.Assert(got.Code == want.Code && Same(got.Value, want.Value), "the truth of the condition")
	Observe("r", got)
	sym.Reach("ok")
}

// operand is a number, as an integer or as text, or not a number.
func operand(name string, symbolic bool) (core.Value, float64, bool) {
	k := sym.Choice(name, 7)
	if symbolic && (k == 2 || k == 3) {
		k = 1
	}
	switch k {
	case 0:
		if !symbolic {
			return core.INT(-7), -7, true
		}
		i := sym.Int(name+"i", -1000, 1000)
		return core.INT(int64(i)), float64(i), true
	case 1:
		return S("12"), 12, true
	case 2:
		return S("-0.5"), -0.5, true
	case 3:
		return core.REAL(2.25), 2.25, true
	case 4:
		return S("x"), 0, false
	case 5:
		return S(""), 0, false
	}
	return S("1e3"), 1000, true
}

// Operators: arithmetic folds its operands from the left; comparisons compare
// numbers.
func Operators() {
	scope := newRoot()
	op := [...]string{"+", "-", "*", "/", ">", ">=", "<", "<="}[sym.Choice("op", 8)]
	n := sym.Choice("n", sym.Param("N", 3)+1)
	words := []core.WordOrValue{{Value: S(op)}}
	var acc float64
	var fs []float64
	// either any integers or some fractions
	integers := sym.Bool("integers") && (op != "/" || n == 2)
	valid := true
	for i := 0; i < n; i++ {
		v, f, ok := operand("operand", integers && (i == 0 || op != "*" && op != "/"))
		words = append(words, core.WordOrValue{Value: v})
		fs = append(fs, f)
		valid = valid && ok
	}
	got := scope.Evaluator.EvaluateScript(core.Script{Sentences: []core.Sentence{{Words: words}}})
	Observe("r", got)
	least, most := 1, 99
	switch op {
	case "/":
		least = 2
	case ">", ">=", "<", "<=":
		least, most = 2, 2
	}
	if !valid || n < least || n > most {
		sym.Assert(got.Code == core.ResultCode_ERROR, "other arguments are errors")
		sym.Reach("error")
		return
	}
	acc = fs[0]
	if op == "-" && n == 1 {
		acc = -acc
	}
	for _, f := range fs[1:] {
		switch op {
		case "+":
			acc += f
		case "-":
			acc -= f
		case "*":
			acc *= f
		case "/":
			sym.Assume(f != 0)
			acc /= f
		}
	}
	sym.Reach("ok")
	if most == 2 {
		want := false
		switch op {
		case ">":
			want = fs[0] > fs[1]
		case ">=":
			want = fs[0] >= fs[1]
		case "<":
			want = fs[0] < fs[1]
		case "<=":
			want = fs[0] <= fs[1]
		}
		sym.Assert(got.Code == core.ResultCode_OK && IsBool(got.Value, want), "comparisons compare numbers")
		return
	}
	r, ok := got.Value.(core.RealValue)
	sym.Assert(got.Code == core.ResultCode_OK && ok, "arithmetic gives numbers")
	sym.Assert(ok && r.Value == acc, "arithmetic folds its operands from the left")
}

// comparand is a string, a number or a tuple, nested to some depth.
func comparand(name string, depth int) core.Value {
	leaves := sym.Param("LEAVES", 5)
	k := leaves
	if depth > 0 {
		k++
	}
	switch c := sym.Choice(name, k); {
	case c == leaves:
		n := 1 + sym.Choice(name+"n", 2)
		vs := []core.Value{}
		for i := 0; i < n; i++ {
			vs = append(vs, comparand(name, depth-1))
		}
		return T(vs...)
	default:
		return [...]core.Value{S("1"), core.INT(1), T(), S("a"), S("b")}[c]
	}
}

func equal(a, b core.Value) bool {
	s, ok := IsTuple(a)
	t, ok2 := IsTuple(b)
	if ok != ok2 {
		return false
	}
	if ok {
		if len(s) != len(t) {
			return false
		}
		for i := range s {
			if !equal(s[i], t[i]) {
				return false
			}
		}
		return true
	}
	_, x := core.ValueToString(a)
	_, y := core.ValueToString(b)
	return x == y
}

// Equality: == compares texts, and tuples element by element.
func Equality() {
	scope := newRoot()
	d := sym.Param("D", 2)
	a, b := comparand("a", d), comparand("b", d)
	scope.Variables["a"], scope.Variables["b"] = a, b
	want := equal(a, b)
	got := run(scope, "== $a $b")
	sym.Assert(got.Code == core.ResultCode_OK && IsBool(got.Value, want), "== compares texts, and tuples element by element")
	got = run(scope, "!= $a $b")
	sym.Assert(got.Code == core.ResultCode_OK && IsBool(got.Value, !want), "!= is the contrary of ==")
	sym.Reach("end")
}

// Scopes: procedures are found in the calls in progress, innermost first, and
// are local to the call that defines them.
func Scopes() {
	scope := newRoot()
	d := sym.Param("D", 3)
	// level i defines f or not, before or after calling level i+1, then calls f
	define := make([]int, d)
	src := "f"
	for i := d - 1; i >= 0; i-- {
		define[i] = sym.Choice("define", 3)
		def := "proc f {} {idem f" + letter(i) + "}; "
		body := ""
		if define[i] == 1 {
			body = def
		}
		if i < d-1 {
			body += "l" + letter(i+1) + "; "
		}
		if define[i] == 2 {
			body += def
		}
		src = "proc l" + letter(i) + " {} {" + body + "note [f]}"
		run(scope, src)
	}
	var seen []core.Value
	scope.Commands["idem"] = cmd(func(args []core.Value, _ *picol.PicolScope) core.Result { return core.OK(args[1]) })
	scope.Commands["note"] = cmd(func(args []core.Value, _ *picol.PicolScope) core.Result {
		seen = append(seen, args[1])
		return core.OK(core.NIL)
	})
	run(scope, "proc f {} {idem top}")
	r := run(scope, "l0; note [f]")
	sym.Assert(r.Code == core.ResultCode_OK, "procedures run")
	var want []core.Value
	for i := d - 1; i >= 0; i-- {
		w := "top"
		for j := i; j >= 0; j-- {
			if define[j] == 1 || define[j] == 2 && j == i {
				w = "f" + letter(j)
				break
			}
		}
		want = append(want, S(w))
	}
	want = append(want, S("top"))
	sym.Assert(SameAll(seen, want), "procedures are found in the calls in progress, innermost first")
	sym.Reach("end")
}

// anyArg is an argument of any kind.
func anyArg(name string) core.Value {
	switch sym.Choice(name, 14) {
	case 0:
		return S("")
	case 1:
		return S("a")
	case 2:
		return T(S("a"), S("args"))
	case 3:
		return script("return c")
	case 4:
		return script("zz {b c} args")
	case 5:
		return core.NewScriptValueWithNoSource(parse("d $e"))
	case 6:
		return core.NIL
	case 7:
		return L(S("a"))
	case 8:
		return core.FALSE
	case 9:
		return I(0)
	case 10:
		return T()
	case 11:
		return script("")
	case 12:
		return core.REAL(1.5)
	}
	return core.NewCommandValue(cmd(func([]core.Value, *picol.PicolScope) core.Result { return core.OK(core.NIL) }))
}

var commands = []string{"+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<=", "!", "&&", "||", "if", "for", "while", "set", "incr", "proc", "return", "break", "continue", "error", "f", "g", "h", "nope"}

// Totality: every command on every number and kind of arguments gives a result.
func Totality() {
	scope := newRoot()
	run(scope, "proc f {a {b c} args} {set args}; proc g {{a 1} {b 2}} {set b}; proc h args2 {}; proc h {args} {return [set args]}")
	name := commands[sym.Choice("command", len(commands))]
	n := sym.Choice("n", sym.Param("N", 2)+1)
	args := []core.Value{}
	for i := 0; i < n; i++ {
		args = append(args, anyArg("arg"))
	}
	sentence := core.Sentence{Words: []core.WordOrValue{{Value: S(name)}}}
	for _, a := range args {
		sentence.Words = append(sentence.Words, core.WordOrValue{Value: a})
	}
	s := core.Script{Sentences: []core.Sentence{sentence}}
	got := scope.Evaluator.EvaluateScript(s)
	sym.Assert(got.Value != nil, "every result has a value")
	if name == "proc" && n == 3 {
		if sv, ok := args[1].(core.ScriptValue); ok && sv.Source == nil {
			sym.Assert(got.Code == core.ResultCode_ERROR, "words that cannot be resolved are errors")
		}
	}
	if name == "proc" && got.Code == core.ResultCode_OK {
		_, t := core.ValueToString(args[0])
		m := sym.Choice("m", 3)
		src := ""
		for i := 0; i < m; i++ {
			src += " x"
		}
		Observe("r", run(scope, "\""+t+"\""+src))
		sym.Reach("proc")
	}
	if name == "==" && n == 2 {
		again := scope.Commands["!="].Execute(append([]core.Value{S("!=")}, args...), scope)
		sym.Assert(Same(again.Value, core.BOOL(!got.Value.(core.BooleanValue).Value)), "!= is the contrary of ==")
	}
	if got.Code == core.ResultCode_ERROR {
		sym.Reach("error")
	} else {
		sym.Reach("ok")
	}
}

// ProcArguments: procedures bind their arguments from the left, then defaults,
// then args. Only the last parameter is the remainder when it is named args.
func ProcArguments() {
	scope := newRoot()
	n := sym.Choice("n", sym.Param("N", 3)+1)
	spec := ""
	body := "list"
	kinds := make([]int, n)
	names := make([]string, n)
	usage := "p"
	args1 := -1 // the parameter before the last that is named args
	if n > 1 {
		args1 = sym.Choice("args", n) - 1
	}
	for i := range kinds {
		k := 2
		if i == n-1 && args1 < 0 {
			k = 3
		}
		kinds[i] = sym.Choice("kind", k)
		names[i] = "a" + letter(i)
		if i == args1 {
			names[i] = "args"
		}
		if i > 0 {
			spec += " "
		}
		switch kinds[i] {
		case 0:
			spec += names[i]
			usage += " " + names[i]
		case 1:
			spec += "{" + names[i] + " d" + letter(i) + "}"
			usage += " ?" + names[i] + "?"
		case 2:
			names[i] = "args"
			spec += "args"
			usage += " ?arg ...?"
		}
		body += " $" + names[i]
	}
	form := "{" + spec + "}"
	if sym.Bool("tuple") {
		form = "(" + spec + ")"
	}
	var bound []core.Value
	calls := 0
	scope.Commands["list"] = cmd(func(args []core.Value, _ *picol.PicolScope) core.Result {
		bound = append([]core.Value{}, args[1:]...)
		calls++
		return core.OK(S("done"))
	})
	m := sym.Choice("m", sym.Param("M", 4)+1)
	src := "p"
	args := []core.Value{}
	odd := -1
	if sym.Param("ODD", 0) > 0 {
		odd = sym.Choice("odd", m+1)
	}
	for i := 0; i < m; i++ {
		if i == odd {
			// a value of another kind
			k := sym.Choice("oddkind", 4)
			src += [...]string{" []", " ()", " (v [])", " \"\""}[k]
			args = append(args, [...]core.Value{core.NIL, T(), T(S("v"), core.NIL), S("")}[k])
			continue
		}
		src += " v" + letter(i)
		args = append(args, S("v"+letter(i)))
	}
	r := run(scope, "proc p "+form+" {"+body+"}")
	sym.Assert(r.Code == core.ResultCode_OK && IsStr(r.Value, ""), "procedures can be defined")
	switch sym.Choice("from", sym.Param("FROM", 1)) {
	case 1:
		// a procedure whose variables have the same names
		sets := "set args z; "
		for i := 0; i < n; i++ {
			sets += "set a" + letter(i) + " z; "
		}
		run(scope, "proc q {} {"+sets+src+"}")
		src = "q"
	case 2:
		// after other calls
		run(scope, "p x0; p x0 x1; p x0 x1 x2; proc q {"+[...]string{"a0", "args", "{a0 e0}"}[sym.Choice("other", 3)]+"} {set b 1}; q x0")
		bound, calls = nil, 0
	}
	got := run(scope, src)
	// reference
	want := []core.Value{}
	ok := true
	at := 0
	for i, k := range kinds {
		switch {
		case k == 2:
			want = append(want, T(args[at:]...))
			at = len(args)
		case at < len(args):
			want = append(want, args[at])
			at++
		case k == 1:
			want = append(want, S("d"+letter(i)))
		default:
			ok = false
		}
	}
	if at < len(args) {
		ok = false
	}
	Observe("r", got)
	if !ok {
		sym.Assert(got.Code == core.ResultCode_ERROR && IsStr(got.Value, "wrong # args: should be \""+usage+"\""), "too few or too many arguments is an error")
		sym.Assert(calls == 0, "nothing runs")
		sym.Reach("error")
		return
	}
	sym.Assert(got.Code == core.ResultCode_OK && IsStr(got.Value, "done") && calls == 1, "the body runs once")
	sym.Assert(SameAll(bound, want), "arguments are bound from the left, then defaults, then args")
	sym.Assert(len(scope.Variables) == 0, "arguments are local")
	sym.Reach("ok")
}

// Variables: set and incr follow one map per procedure call.
func Variables() {
	scope := newRoot()
	run(scope, "proc get {} {set x}; proc put {v} {set x $v}; proc add {x} {incr x 2; incr x}; proc rec {n} {if {== $n 0} {return end}; set x $n; rec [- $n 1]; return $x}")
	vars := map[string]core.Value{}
	names := []string{"x", "y"}
	k := sym.Param("K", 3)
	for i := 0; i < k; i++ {
		name := names[sym.Choice("name", 2)]
		v := vars[name]
		n, isInt := v.(core.IntegerValue)
		switch sym.Choice("op", 9) {
		case 0:
			r := run(scope, "set "+name+" v"+letter(i))
			sym.Assert(r.Code == core.ResultCode_OK && IsStr(r.Value, "v"+letter(i)), "set gives the value")
			vars[name] = S("v" + letter(i))
		case 1:
			d := sym.Int64("d")
			r := scope.Commands["incr"].Execute([]core.Value{S("incr"), S(name), core.INT(d)}, scope)
			switch {
			case v == nil:
				vars[name] = core.INT(d)
			case isInt:
				vars[name] = core.INT(n.Value + d)
			default:
				sym.Assert(r.Code == core.ResultCode_ERROR, "only integers are incremented")
				continue
			}
			sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, vars[name]), "incr adds")
		case 2:
			r := run(scope, "set "+name)
			if v == nil {
				sym.Assert(r.Code == core.ResultCode_ERROR, "unknown variables cannot be read")
			} else {
				sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, v), "variables keep their value")
			}
		case 3:
			r := run(scope, "set "+name+" $y")
			if vars["y"] == nil {
				sym.Assert(r.Code == core.ResultCode_ERROR, "unknown variables cannot be read")
			} else {
				vars[name] = vars["y"]
			}
		case 4:
			r := run(scope, "get")
			sym.Assert(r.Code == core.ResultCode_ERROR, "procedures do not see other variables")
		case 5:
			r := run(scope, "put 5")
			sym.Assert(r.Code == core.ResultCode_OK, "procedures have their own variables")
		case 6:
			r := run(scope, "add 5")
			sym.Assert(r.Code == core.ResultCode_OK && IsInt(r.Value, 8), "arguments can be changed")
		case 7:
			r := run(scope, "rec 3")
			sym.Assert(r.Code == core.ResultCode_OK && IsStr(r.Value, "3"), "each call has its own variables")
		case 8:
			r := run(scope, "proc get {} {return g}; set "+name+" [get]; proc get {} {set x}")
			sym.Assert(r.Code == core.ResultCode_OK, "procedures can be redefined")
			vars[name] = S("g")
		}
		for _, n := range names {
			g := scope.Variables[n]
			sym.Assert((g == nil) == (vars[n] == nil) && (g == nil || Same(g, vars[n])), "only the named variable changes")
		}
	}
	sym.Reach("end")
}
