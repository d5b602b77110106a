package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- any nesting of commands that run bodies ----

// wrapper runs a body: # stands for the body, % for the level.
type wrapper struct {
	src string
	end func(r core.Result) core.Result
}

func same(r core.Result) core.Result { return r }

// asProc is how procedures end.
func asProc(r core.Result) core.Result {
	switch r.Code {
	case core.ResultCode_OK, core.ResultCode_RETURN:
		return core.OK(r.Value)
	case core.ResultCode_ERROR:
		return r
	}
	return core.ERROR("unexpected " + core.RESULT_CODE_NAME(r))
}

// asDefinition is how bodies of scopes and namespaces end.
func asDefinition(r core.Result) core.Result {
	if r.Code == core.ResultCode_OK {
		return core.OK(core.NewCommandValue(nil))
	}
	return asProc(r)
}

// asLoop is how the body of a loop of one iteration ends.
func asLoop(r core.Result) core.Result {
	switch r.Code {
	case core.ResultCode_BREAK, core.ResultCode_CONTINUE:
		return core.OK(core.NIL)
	}
	return r
}

// returned is for bodies run in another process that must end normally.
var wrappers = []wrapper{
	{"eval {#}", same},
	{"if true {#} else {act wrong}", same},
	{"when {false {act wrong} true {#} {act wrong}}", same},
	{"idem [#]", same},
	{"macro m% {} {#}; m%", same},
	{"closure k% {} {#}; k%", same},
	{"proc p% {} {#}; p%", asProc},
	{"(eval) {#}", same},
	{"alias a% (eval {#}); a%", same},
	{"scope {#}", asDefinition},
	{"scope s% {}; s% eval {#}", same},
	{"scope s% {macro m {} {#}}; s% call m", same},
	{"namespace n% {#}", asDefinition},
	{"namespace n% {macro m {} {#}}; n% m", same},
	{"namespace n% {}; [n%] eval {#}", same},
	{"namespace n% {closure m {a} {#}}; [n%] call m 1", same},
	{"ensemble e% {} {#}", asDefinition},
	{"ensemble e% {a} {macro m {a} {#}}; e% 1 m", same},
	{"ensemble e% {a b} {proc m {a b c} {#}}; e% 1 2 m 3", asProc},
	{"list (1) foreach v {#}", asLoop},
	{"dict (a 1) foreach v {#}", asLoop},
	{"loop v (list (1)) {#}", nil},
	{"macro m% {} (idem {#}); m%", same},
	{"idem \"[#]\"", same},
	{"set v% [#]", same},
	{"macro m% {(?x 1)} {#}; [[m%] argspec] usage; m%", nil},
	{"proc p% {} (idem {#}); p%", asProc},
	{"((eval)) {#}", same},
	{"eval {#}; |> idem", same},
	{"idem $[eval {#}]", same},
	{"macro m% {?x} {#}; (m%) 1", same},
	{"while true {#; act last; break}", nil},
	{"catch {#} error e {act caught $e}", nil},
	{"tailcall {#}", nil},
}

func init() {
	// keep only the wrappers whose ending is defined
	n := 0
	for _, w := range wrappers {
		if w.end != nil {
			wrappers[n] = w
			n++
		}
	}
	wrappers = wrappers[:n]
}

func fill(src, body, level string) string {
	out := ""
	for i := 0; i < len(src); i++ {
		switch src[i] {
		case '#':
			out += body
		case '%':
			out += level
		default:
			out += src[i : i+1]
		}
	}
	return out
}

// Wrappers: a body in any nesting of commands runs once, in order, its yields
// reach the host and resume it where it stopped, and its ending is that of the
// commands around it.
func Wrappers() {
	var opts *hel.ScopeOptions
	if sym.Param("OPTS", 0) > 0 {
		opts = &hel.ScopeOptions{CapturePositions: true, CaptureErrorStack: true}
	}
	w := newWorld(NewRoot(opts), 20)
	w.answer = func(_ string, v core.Value) core.Value { return v }
	w.codes = func(tag string) core.ResultCode {
		if tag == "b" || tag == "c" {
			return AnyCode("code")
		}
		return core.ResultCode_OK
	}
	d := sym.Param("D", 2)
	src := "act b; act c"
	ws := make([]wrapper, d)
	for i := range ws {
		ws[i] = wrappers[sym.Choice("wrapper", len(wrappers))]
		// strings are not made of any kind of value
		sym.Assume(sym.Param("VALUES", 0) == 0 || ws[i].src != "idem \"[#]\"")
		src = fill(ws[i].src, src, letter(i)) + "; act q" + letter(i) + " [^]"
	}
	got := w.run(Proc(w.scope, src))
	reference := func() core.Result {
		r := w.call(S("b"))
		if r.Code == core.ResultCode_OK {
			r = w.call(S("c"))
		}
		for i, wr := range ws {
			r = wr.end(r)
			if r.Code == core.ResultCode_OK {
				r = w.call(S("q"+letter(i)), r.Value)
			}
		}
		return r
	}
	w.check(got, reference())
}

// ask is a command that yields its arguments n times, keeping the answers, and
// then ends with code.
type ask struct {
	n    int
	code func() core.ResultCode
}

type askState struct {
	at   int
	vals []core.Value
}

func (a ask) Execute(args []core.Value, _ any) core.Result {
	return a.step(askState{0, snapAll(args[1:])})
}

func (a ask) Resume(r core.Result, _ any) core.Result {
	s, ok := r.Data.(askState)
	sym.Assert(ok && r.Code == core.ResultCode_YIELD, "a command resumes from the state it yielded")
	return a.step(askState{s.at + 1, append(snapAll(s.vals), r.Value)})
}

func (a ask) step(s askState) core.Result {
	if s.at < a.n {
		return core.YIELD_STATE(T(append([]core.Value{S("q" + letter(s.at))}, s.vals...)...), s)
	}
	return core.Result{Code: a.code(), Value: T(s.vals...)}
}

// dispatchers give a command (its definitions, how it is called) made of
// another one (#); extra is an argument it adds first.
var dispatchers = []struct{ def, call, extra string }{
	{"alias a% #", "a%", ""},
	{"alias a% (# x%)", "a%", "x"},
	{"", "(#)", ""},
	{"", "(# x%)", "x"},
	{"ensemble e% {} {alias f #}", "e% f", ""},
	{"ensemble e% {a} {alias f #}", "e% x% f", "x"},
	{"ensemble e% {(g a)} {alias f #}", "e% x% f", "x"},
	{"namespace n% {alias f #}", "n% f", ""},
	{"namespace n% {alias f #}", "[n%] call f", ""},
	{"scope s% {alias f #}", "s% call f", ""},
	{"macro m% {*r} {# $*r}", "m%", ""},
	{"closure k% {*r} {# $*r}", "k%", ""},
	{"proc p% {*r} {# $*r}", "p%", ""},
	{"let v% [[alias a% #] command]", "$v%", ""},
}

// Dispatch: a command that yields several times, called through any nesting of
// aliases, tuples, ensembles, namespaces, scopes and closures, is resumed from
// its own states with the values sent back, and ends as when called directly.
func Dispatch() {
	var opts *hel.ScopeOptions
	if sym.Param("OPTS", 0) > 0 {
		opts = &hel.ScopeOptions{CapturePositions: true, CaptureErrorStack: true}
	}
	scope := NewRoot(opts)
	pools()
	n := sym.Choice("yields", sym.Param("Y", 3)+1)
	var code core.ResultCode
	scope.RegisterNamedCommand("ask", ask{n, func() core.ResultCode { return code }})
	switch sym.Choice("code", 3) {
	case 1:
		code = core.ResultCode_ERROR
		// errors have texts
	case 2:
		code = core.ResultCode_BREAK
	}
	Run(scope, "macro g {v} {idem $v}")
	d := sym.Param("D", 2)
	head := "ask"
	proc := false
	var vals []core.Value
	for i := 0; i < d; i++ {
		k := sym.Choice("dispatcher", len(dispatchers))
		x := dispatchers[k]
		inner := head
		if x.def != "" && sym.Bool("tuple") {
			inner = "(" + head + ")"
		} else {
			for j := 0; j < len(head); j++ {
				// heads of several words are tuples
				sym.Assume(head[j] != ' ' || x.def == "" || x.extra != "" && x.call[0] == 'a' || x.call[0] == 'm' || x.call[0] == 'k' || x.call[0] == 'p')
			}
		}
		if x.def != "" {
			// variables are not visible in other scopes
			for j := 0; j < len(inner); j++ {
				sym.Assume(inner[j] != '$' || x.def[0] == 'a' || x.def[0] == 'l')
			}
			r := Run(scope, fill(x.def, inner, letter(i)))
			sym.Assert(r.Code == core.ResultCode_OK, "harness: definitions")
		}
		head = fill(x.call, inner, letter(i))
		if x.extra != "" {
			vals = append(vals, S("x"+letter(i)))
		}
		proc = proc || head[0] == 'p'
	}
	// arguments added by inner dispatchers come first
	p := Proc(scope, "idem before; "+head+" w; idem [^]")
	vals = append(vals, S("w"))
	for i := 0; i < n; i++ {
		r := p.Run()
		sym.Assert(r.Code == core.ResultCode_YIELD, "each yield reaches the host")
		sym.Assert(Same(r.Value, T(append([]core.Value{S("q" + letter(i))}, vals...)...)), "yields carry the command's value")
		vals = append(vals, S("s"+letter(i)))
		p.YieldBack(vals[len(vals)-1])
	}
	r := p.Run()
	switch {
	case code == core.ResultCode_BREAK && proc:
		assertError(r, "procedures do not break")
	default:
		sym.Assert(r.Code == code && Same(r.Value, T(vals...)), "the command ends with the values sent back")
	}
	assertAlone()
	Observe("r", r)
	sym.Reach("end")
}
