package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- ensembles ----

// subDefs are the definitions of a subcommand named sub, of any kind.
var subDefs = []string{
	"macro sub {*r} {act $*r; act m; idem $r}",
	"closure sub {a ?b *r} {act $a [get b -]; act k; idem $r}",
	"proc sub {a b ?c} {act $a $b; act [get c -]}",
	"scope sub {macro foo {*r} {act foo $*r; idem $r}; macro sub {*r} {act wrong $*r}; macro bar {} {act bar}}",
	"namespace sub {macro foo {*r} {act foo $*r; idem $r}; macro sub {*r} {act wrong $*r}; proc bar {} {act bar}}",
	"alias sub (act pre)",
	"alias sub (foo2 pre); macro foo2 {*r} {act foo2 $*r; act $*r}",
	"ensemble sub {c} {macro foo {*r} {act foo $*r; idem $r}; macro sub {*r} {act wrong $*r}; alias bar act}",
	"ensemble sub {} {macro foo {*r} {act foo $*r; act r}; macro call {*r} {act call $*r; idem $r}}",
	"alias sub ask",
	"macro sub {*r} {ask $*r}",
	"macro sub {(?-o) ?f *r} {act $*r}",
}

type ensembleWorld struct {
	scope *hel.Scope
	log   []core.Value
	n     int
	seen  []core.Result
}

// shared endings: the same calls end the same way in both worlds.
type endings struct{ rs []core.Result }

func (e *endings) at(i int) core.Result {
	for len(e.rs) <= i {
		r := core.OK(S("r" + letter(len(e.rs))))
		if len(e.rs) < sym.Param("L", 2) {
			switch sym.Choice("code", sym.Param("CODES", 3)) {
			case 1:
				r.Code = core.ResultCode_YIELD
			case 2:
				r.Code = core.ResultCode_RETURN
			case 3:
				r.Code = core.ResultCode_ERROR
			case 4:
				r.Code = core.ResultCode_BREAK
			}
		}
		e.rs = append(e.rs, r)
	}
	return e.rs[i]
}

func newEnsembleWorld(e *endings, src string) *ensembleWorld {
	w := &ensembleWorld{scope: NewRoot(nil)}
	Reg(w.scope, "act", func(args []core.Value, _ *hel.Scope) core.Result {
		w.log = append(w.log, T(snapAll(args[1:])...))
		w.n++
		return e.at(w.n - 1)
	})
	Reg(w.scope, "note", func(args []core.Value, _ *hel.Scope) core.Result {
		w.log = append(w.log, T(snapAll(args)...))
		return core.OK(core.NIL)
	})
	w.scope.RegisterNamedCommand("ask", ask{2, func() core.ResultCode { return core.ResultCode_OK }})
	sym.Assert(Run(w.scope, src).Code == core.ResultCode_OK, "harness: definitions")
	return w
}

// drive runs a process to its end; what it yields is logged and answered.
func (w *ensembleWorld) drive(p *hel.Process) core.Result {
	for i := 0; ; i++ {
		r := p.Run()
		if r.Code != core.ResultCode_YIELD || i > 8 {
			return r
		}
		w.seen = append(w.seen, r)
		p.YieldBack(S("s" + letter(i)))
	}
}

// EnsembleDispatch: calling a subcommand through an ensemble is calling the
// command with the ensemble's arguments first.
func EnsembleDispatch() {
	e := &endings{}
	k := sym.Choice("required", sym.Param("R", 2)+1)
	spec := [...]string{"()", "(a)", "(a b)", "(a b c)"}[k]
	guard := false
	if k > 0 && sym.Bool("guard") {
		guard = true
		spec = [...]string{"", "((g a))", "(a (g b))", "((g a) b c)"}[k]
	}
	def := subDefs[sym.Choice("sub", len(subDefs))]
	inside := sym.Bool("late")
	gives, given := "idem (g $v)", func(a core.Value) core.Value { return T(S("g"), a) }
	if guard && sym.Param("ODD", 0) > 0 {
		// what a guard gives may be any value
		switch sym.Choice("gives", 4) {
		case 1:
			gives, given = "idem []", func(core.Value) core.Value { return core.NIL }
		case 2:
			gives, given = "idem ()", func(core.Value) core.Value { return T() }
		case 3:
			gives, given = "idem $v", func(a core.Value) core.Value { return a }
		}
	}
	gdef := "macro g {v} {note $v; " + gives + "}; "
	src := gdef + "ensemble e " + spec + " {}; "
	if inside {
		src += "[e] eval {" + def + "}; "
	} else {
		src = gdef + "ensemble e " + spec + " {" + def + "}; "
	}
	src += "[e] eval {macro foo {*r} {act out $*r}}; "
	w1, w2 := newEnsembleWorld(e, src), newEnsembleWorld(e, src)
	n := sym.Choice("rest", sym.Param("N", 2)+1)
	args := make([]core.Value, k+n)
	for i := range args {
		args[i] = anyWord("arg")
	}
	// through the ensemble, from a sentence whose words are evaluated
	for i, a := range args {
		Def(w1.scope, "v"+letter(i), a)
	}
	line := "e"
	for i := range args {
		if i == k {
			line += " sub"
		}
		line += " $v" + letter(i)
	}
	if n == 0 {
		line += " sub"
	}
	got := w1.drive(Proc(w1.scope, line))
	// directly
	var cmd core.Command
	Reg(w2.scope, "steal", func(args []core.Value, s *hel.Scope) core.Result {
		cmd = s.ResolveNamedCommand("sub")
		return core.OK(core.NIL)
	})
	Run(w2.scope, "[e] eval {steal}")
	direct := []core.Value{core.NewCommandValue(cmd)}
	for i, a := range args {
		if guard && i == [...]int{0, 0, 1, 0}[k] {
			w2.log = append(w2.log, T(S("note"), a))
			a = given(a)
		}
		direct = append(direct, a)
	}
	want := w2.drive(w2.scope.PrepareProcess(w2.scope.CompileArgs(direct)))
	sym.Assert(SameAll(w1.log, w2.log), "the command runs with the ensemble's arguments first")
	sym.Assert(len(w1.seen) == len(w2.seen), "its yields reach the host")
	for i := range w1.seen {
		sym.Assert(SameResult(w1.seen[i], w2.seen[i]), "its yields reach the host")
	}
	sym.Assert(got.Code == want.Code, "the result code is that of the command")
	sym.Assert(Same(got.Value, want.Value), "the result is that of the command")
	Observe("r", got)
	sym.ObserveInt("log", len(w1.log))
	sym.Reach(Code(got))
}

func anyWord(name string) core.Value {
	switch sym.Choice(name, 4+sym.Param("ODD", 0)) {
	case 4:
		return core.NIL
	case 5:
		return T()
	case 6:
		return T(S("bar"), core.NIL)
	case 0:
		return S("call")
	case 1:
		return S("foo")
	case 2:
		return S("bar")
	}
	return Script("bar")
}

// builtinCalls are calls of commands that run bodies, word by word.
var builtinCalls = [][]string{
	{"if", "{act a; idem true}", "{act b}", "else", "{act c}"},
	{"if", "{act a; idem false}", "{act b}", "elseif", "{act c; idem true}", "{act d}"},
	{"&&", "{act a; idem true}", "{act b; idem true}", "{act c; idem false}"},
	{"||", "{act a; idem false}", "{act b; idem false}", "{act c; idem true}"},
	{"!", "{act a; idem true}"},
	{"catch", "{act a}", "return", "v", "{act b $v}", "yield", "w", "{act c $w}", "error", "m", "{act d}", "finally", "{act e}"},
	{"catch", "{act a}", "finally", "{act b}"},
	{"catch", "{act a}", "yield", "v", "{act b $v; pass}", "break", "{act c}"},
	{"catch", "{act a}"},
	{"when", "((idem) {act a; idem false} {act b} {act c; idem true} {act d})"},
	{"when", "{act a; idem idem}", "(true {act b} {act c})"},
	{"while", "{act a; idem true}", "{act b; break}"},
	{"loop", "i", "v", "(x y)", "{act $i $v}"},
	{"list", "(x y)", "foreach", "i", "v", "{act $i $v}"},
	{"list", "(y x)", "sort", "{act $a; idem true}"},
	{"dict", "(x y)", "foreach", "v", "{act $v}"},
	{"eval", "{act a; act b}"},
	{"return", "x"},
	{"yield", "x"},
	{"scope", "{act a; act b}"},
	{"namespace", "{act a; act b}"},
	{"ensemble", "(a)", "{act a; act b}"},
	{"ensemble", "f", "(a)", "{act a; act b}"},
	{"list", "(x y z)", "range", "1", "2"},
	{"string", "xyz", "replace", "0", "1", "w"},
	{"argspec", "((a ?b))", "set", "(x y)"},
}

// Builtins: a built-in command called through an ensemble, alias or tuple that
// takes any of its first arguments, or through a namespace or scope, gives what
// it gives when called directly.
func Builtins() {
	e := &endings{}
	words := builtinCalls[sym.Choice("command", len(builtinCalls))]
	via := sym.Param("VIA", 0)
	if via < 0 {
		via = -2*via - sym.Choice("via", 2)
	}
	n := len(words) - 1
	k := 0
	if via < 3 {
		k = sym.Choice("required", sym.Param("R", 3)+1)
		sym.Assume(k <= n)
	}
	w1, w2 := newEnsembleWorld(e, ""), newEnsembleWorld(e, "")
	Reg(w1.scope, "give", func(args []core.Value, s *hel.Scope) core.Result {
		_, name := core.ValueToString(args[1])
		s.RegisterNamedCommand(name, s.ResolveNamedCommand(name))
		return core.OK(core.NIL)
	})
	first, rest, direct := "", "", words[0]
	for i, w := range words[1:] {
		if i < k {
			first += " " + w
		} else {
			rest += " " + w
		}
		direct += " " + w
	}
	def, line := "", ""
	switch via {
	case 0:
		def = "ensemble e (" + [...]string{"", "a", "a b", "a b c", "a b c d"}[k] + ") {}; [e] eval {give " + words[0] + "}"
		line = "e" + first + " " + words[0] + rest
	case 1:
		def = "alias z (" + words[0] + first + ")"
		line = "z" + rest
	case 2:
		line = "((" + words[0] + ")" + first + ")" + rest
	case 3:
		def = "namespace m {give " + words[0] + "}"
		line = "m " + words[0] + rest
	case 4:
		def = "scope s {give " + words[0] + "}"
		line = "s call " + words[0] + rest
	}
	sym.Assert(Run(w1.scope, def).Code == core.ResultCode_OK, "harness: definitions")
	got := w1.drive(Proc(w1.scope, "idem before; "+line+"; idem _[act last]_"))
	want := w2.drive(Proc(w2.scope, "idem before; "+direct+"; idem _[act last]_"))
	sym.Assert(SameAll(w1.log, w2.log), "the command runs as called directly")
	sym.Assert(len(w1.seen) == len(w2.seen), "its yields reach the host")
	for i := range w1.seen {
		sym.Assert(SameResult(w1.seen[i], w2.seen[i]), "its yields reach the host")
	}
	sym.Assert(got.Code == want.Code, "the result code is that of the command")
	sym.Assert(Same(got.Value, want.Value), "the result is that of the command")
	Observe("r", got)
	sym.ObserveInt("log", len(w1.log))
	sym.Reach(Code(got))
}
