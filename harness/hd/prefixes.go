package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- command prefixes ----

// prefixWorld gives prefixes of commands and the words they stand for.
type prefixWorld struct {
	n      int
	defs   string
	guards int
}

// prefix is a word in command position and the words it stands for.
func (p *prefixWorld) prefix(depth int) (string, []string) {
	k := 3
	if depth > 0 {
		k = 8
	}
	switch sym.Choice("prefix", k) {
	case 1:
		return "$cmd", []string{"act"}
	case 2:
		return "eact", []string{"act", "x"}
	case 3: // a tuple: its first word may be a prefix too
		w, flat := p.prefix(depth - 1)
		n := sym.Choice("extra", 3)
		for i := 0; i < n; i++ {
			a, f := p.arg()
			w += " " + a
			flat = append(flat, f)
		}
		return "(" + w + ")", flat
	case 4: // an alias
		w, flat := p.prefix(depth - 1)
		p.n++
		name := "al" + letter(p.n)
		p.defs += "alias " + name + " " + w + "; "
		return name, flat
	case 5: // an alias of a tuple, by value
		w, flat := p.prefix(depth - 1)
		p.n++
		name := "al" + letter(p.n)
		a, f := p.arg()
		p.defs += "set " + name + " [alias " + name + " (" + w + " " + a + ")]; "
		return "[$" + name + "]", append(flat, f)
	case 6: // a tuple value
		w, flat := p.prefix(depth - 1)
		p.n++
		name := "v" + letter(p.n)
		a, f := p.arg()
		p.defs += "set " + name + " (" + w + " " + a + "); "
		return "$" + name, append(flat, f)
	case 7: // the command of an alias
		w, flat := p.prefix(depth - 1)
		p.n++
		name := "al" + letter(p.n)
		p.defs += "set " + name + " [alias " + name + " " + w + "]; "
		return "[$" + name + " command]", flat
	}
	return "act", []string{"act"}
}

// arg is an argument and its display.
func (p *prefixWorld) arg() (string, string) {
	p.n++
	switch sym.Choice("arg", sym.Param("ARGS", 3)) {
	case 1:
		return "(q" + letter(p.n) + " r)", "(q" + letter(p.n) + " r)"
	case 2:
		return "()", "()"
	case 3:
		return "[]", "[]"
	}
	return "a" + letter(p.n), "a" + letter(p.n)
}

// word is the value a flat word stands for.
func word(s string) core.Value {
	if s == "[]" {
		return core.NIL
	}
	if s[0] != '(' {
		return S(s)
	}
	if s == "()" {
		return T()
	}
	return T(S(s[1:3]), S("r"))
}

// Prefixes: a command given as any nesting of tuples and aliases is called with
// the words they stand for, then its arguments; it yields and ends as if called
// directly.
func Prefixes() {
	w := newWorld(NewRoot(nil), 3)
	w.answer = func(_ string, v core.Value) core.Value { return v }
	real := w.scope.ResolveNamedCommand("act")
	Def(w.scope, "cmd", core.NewCommandValue(real))
	p := &prefixWorld{}
	head, flat := p.prefix(sym.Param("D", 2))
	src := head
	n := sym.Choice("args", 3)
	for i := 0; i < n; i++ {
		a, f := p.arg()
		src += " " + a
		flat = append(flat, f)
	}
	Run(w.scope, "ensemble eact {} {}; [eact] eval {}; alias eact (act x)")
	r := Run(w.scope, p.defs)
	sym.Assert(r.Code == core.ResultCode_OK, "definitions work")
	if sym.Bool("redefined") {
		// called before with another command of the same name
		calls := 0
		Reg(w.scope, "act", func(args []core.Value, _ *hel.Scope) core.Result {
			calls++
			return core.OK(core.NIL)
		})
		codes := w.codes
		w.codes = func(string) core.ResultCode { return core.ResultCode_OK }
		r := Run(w.scope, head+" earlier")
		sym.Assert(r.Code == core.ResultCode_OK && calls+len(w.acts) == 1, "the prefix is called")
		w.codes, w.acts = codes, nil
		w.scope.RegisterNamedCommand("act", real)
	}
	switch sym.Choice("call", 3) {
	case 0:
		src = "act before; " + src
	case 1:
		src = "act before; idem [" + src + "]"
	case 2:
		src = "act before; eval {" + src + "}"
	}
	got := w.run(Proc(w.scope, src))
	want := w.call(S("before"))
	if want.Code == core.ResultCode_OK {
		args := []core.Value{}
		for _, f := range flat[1:] {
			args = append(args, word(f))
		}
		want = w.call(args...)
	}
	w.check(got, want)
}
