package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- any command on any arguments ----

type callable struct{ defs, expr string }

const (
	defM  = "set mm [macro m {a ?b} {idem $a}]; "
	defK  = "set mk [closure k {a (?b c) *r} {idem $a}]; "
	defP  = "set mp [proc p (?-f ?flag -o o a) {idem $a}]; "
	defMO = "macro mo (?-f ?flag (-o --opt) ?o ?x) {idem $x}; "
	defE  = "ensemble e {a b} {macro x {p q ?r} {idem $p}; closure y {p} {idem $p}; proc z {*r} {idem $r}; ensemble w {c} {macro v {*} {}; alias u idem}; alias l list}; "
	defE0 = "ensemble e0 {} {macro x {} {idem x}; macro y {p ?q} {idem $p}; namespace n {macro x {p} {}}}; "
	defN  = "namespace n {macro x {p ?q} {idem $p}; ensemble e {a} {macro x {p} {}}; namespace n {macro x {} {}}; scope s {}; let c 1}; "
	defS  = "scope s {macro x {p ?q} {idem $p}; closure y {} {}}; "
	defA  = "set ma [alias al m]; alias al2 (e 1 2); alias al3 nope; "
	defC  = "set co [coroutine {idem a; yield b; error c}]; "
)

var callables = []callable{
	{defM, "m"}, {defK, "k"}, {defP, "p"}, {defMO, "mo"}, {defE, "e"}, {defE0, "e0"}, {defN, "n"}, {defS, "s"},
	{defM, "$mm"}, {defK, "$mk"}, {defP, "$mp"}, {defE, "[e]"}, {defE0, "[e0]"}, {defN, "[n]"}, {defS, "[s]"}, {defC, "$co"},
	{defM + defE + defA, "al"}, {defM + defE + defA, "al2"}, {defA, "al3"}, {defM + defA, "$ma"},
	{defM, "(m 1)"}, {defE, "(e 1 2)"}, {defE, "(e 1 2 w)"}, {defM, "([$mm])"}, {defM, "[$mm argspec]"},
	{"", "idem"}, {"", "return"}, {"", "yield"}, {"", "error"}, {"", "break"}, {"", "continue"}, {"", "eval"}, {"", "help"}, {"", "^"}, {"", "|>"},
	{"", "loop"}, {"", "while"}, {"", "if"}, {"", "when"}, {"", "catch"}, {"", "pass"},
	{"", "dict"}, {"", "list"}, {"", "string"}, {"", "tuple"}, {"", "script"}, {"", "argspec"}, {"", "parse"},
	{"", "true"}, {"", "false"}, {"", "bool"}, {"", "!"}, {"", "&&"}, {"", "||"}, {"", "int"}, {"", "real"}, {"", "+"}, {"", "-"}, {"", "*"}, {"", "/"},
	{"", "scope"}, {"", "namespace"}, {"", "ensemble"}, {"", "macro"}, {"", "closure"}, {"", "proc"}, {"", "coroutine"}, {"", "alias"}, {"", "module"}, {"", "import"},
	{"", "let"}, {"", "set"}, {"", "get"}, {"", "exists"}, {"", "unset"}, {"", "1"}, {"", "2.5"}, {"", "nope"}, {"", "()"},
	{"", "[list]"}, {"", "[dict]"}, {"", "[string]"}, {"", "[tuple]"}, {"", "[script]"}, {"", "[argspec]"}, {"", "[list ()]"}, {"", "{}"},
}

var subwords = []string{"subcommands", "eval", "call", "wait", "yield", "argspec", "import", "command", "x", "y", "z", "w", "u", "l", "n", "e", "foreach", "usage", "set", "split", "length", "append", "+", "==", "?", "!?", "-o", "error", "finally", "in"}

// anyArg is an argument of any kind; near the front it may be a meaningful word.
func anyArg(name string, i int) core.Value {
	n := 14
	if i < sym.Param("W", 2) {
		n += len(subwords)
	}
	c := sym.Choice(name, n)
	if c >= 14 {
		return S(subwords[c-14])
	}
	switch c {
	case 0:
		return S("")
	case 1:
		return S("zz")
	case 2:
		return L(S("a"), S("b"))
	case 3:
		return T(S("idem"), S("c"))
	case 4:
		return Script("return c")
	case 5:
		return ScriptNoSrc("d $e")
	case 6:
		return core.NIL
	case 7:
		return core.DICT(map[string]core.Value{"k": S("v")})
	case 8:
		return core.TRUE
	case 9:
		return I(1)
	case 10:
		return T()
	case 11:
		return anArgspec
	case 12:
		return Script("")
	}
	return core.NewQualifiedValue(S("q"), []core.Selector{core.KeyedSelector{Keys: []core.Value{S("k")}}})
}

// CommandTotality: every command on every number and kind of arguments gives a
// result.
func CommandTotality() {
	var opts *hel.ScopeOptions
	if sym.Param("OPTS", 0) > 0 {
		opts = &hel.ScopeOptions{CapturePositions: true, CaptureErrorStack: true}
	}
	pools()
	scope := NewRoot(opts)
	c := callables[sym.Choice("command", len(callables))]
	r := Run(scope, c.defs+"idem "+c.expr)
	sym.Assert(r.Code == core.ResultCode_OK, "harness: callable")
	n := sym.Choice("n", sym.Param("N", 2)+1)
	args := []core.Value{r.Value}
	if sym.Param("HELP", 0) > 0 {
		args = []core.Value{S("help"), r.Value}
	}
	for i := 0; i < n; i++ {
		args = append(args, anyArg("arg", i))
	}
	given := args[len(args)-n:]
	if body, ok := args[len(args)-1].(core.ScriptValue); ok && (c.expr == "loop" || c.expr == "while") {
		sym.Assume(len(body.Script.Sentences) > 0) // may not end
	}
	snap := snapAll(given)
	p := scope.PrepareProcess(scope.CompileArgs(args))
	got := p.Run()
	for i := 0; got.Code == core.ResultCode_YIELD && i < 3; i++ {
		_, internal := got.Value.(interface{ CustomType() core.CustomValueType })
		_, argspec := got.Value.(hel.ArgspecValue)
		sym.Assert(!internal || argspec, "no internal value is yielded")
		p.YieldBack(S("back"))
		got = p.Run()
	}
	sym.Assert(got.Value != nil, "every result has a value")
	if got.Code == core.ResultCode_ERROR {
		rt, _ := core.ValueToString(got.Value)
		sym.Assert(rt.Code == core.ResultCode_OK, "errors have messages")
	}
	sym.Assert(SameAll(snap, given), "arguments do not change")
	if sym.Param("HELP", 0) > 0 && got.Code == core.ResultCode_OK {
		_, ok := got.Value.(core.StringValue)
		sym.Assert(ok, "help is text")
	}
	assertAlone()
	sym.Observe("code", Code(got))
	if got.Code == core.ResultCode_ERROR {
		sym.Reach("error")
	} else {
		sym.Reach("ok")
	}
}
