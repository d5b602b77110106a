package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- script values ----

// ScriptValues: a script built in any way runs as the sentences it holds, each
// time it runs.
func ScriptValues() {
	w := newWorld(NewRoot(nil), 12)
	w.answer = func(_ string, v core.Value) core.Value { return v }
	codes := sym.Param("CODES", 3)
	w.codes = func(string) core.ResultCode {
		switch sym.Choice("code", codes) {
		case 1:
			return core.ResultCode_YIELD
		case 2:
			return core.ResultCode_ERROR
		}
		return core.ResultCode_OK
	}
	n := sym.Choice("n", sym.Param("N", 2)+1)
	kinds := make([]int, n)
	texts := make([]string, n)
	all := ""
	length := 0
	for i := range kinds {
		kinds[i] = sym.Choice("sentence", 8)
		texts[i] = [...]string{"act a", "act b [^]", "|> act c", "set x [act d]", "act e $x", "", "act (1 2) \"$[idem s]\" t", "^"}[kinds[i]]
		if i > 0 {
			all += [...]string{"; ", "\n"}[sym.Choice("separator", sym.Param("SEP", 1))]
		}
		all += texts[i]
		if texts[i] != "" {
			length++
		}
	}
	// part is the sentence as a script or tuple
	part := func(i int) string {
		if kinds[i] == 0 {
			return [...]string{"{act a}", "(act a)", "((act a))", "((act) a)"}[sym.Choice("tuple", 4)]
		}
		return "{" + texts[i] + "}"
	}
	Def(w.scope, "text", S(all))
	expr := ""
	switch sym.Choice("construction", 8) {
	case 0:
		expr = "idem {" + all + "}"
	case 1:
		expr = "parse $text"
	case 2:
		expr = "script {} append"
		if sym.Bool("used empty") {
			// a script that has already run
			Def(w.scope, "none", Script(""))
			sym.Assert(Run(w.scope, "eval $none").Code == core.ResultCode_OK, "empty scripts run")
			expr = "script $none append"
		}
		for i := range kinds {
			expr += " " + part(i)
		}
	case 3:
		expr = "script () append $*[tuple [script {" + all + "} split]]"
	case 4:
		sym.Assume(n > 0)
		if sym.Bool("used first") {
			v := Script(texts[0])
			Def(w.scope, "first", v)
			w.scope.CompileScriptValue(v)
			expr = "script $first append"
		} else {
			expr = "script " + part(0) + " append"
		}
		for i := 1; i < n; i++ {
			expr += " " + part(i)
		}
	case 5:
		expr = "script [script {" + all + "}]"
	case 6:
		sym.Assume(n > 0)
		expr = "set l [script {act z; " + all + "} split]; set s {}; list [list $l range 1] foreach e {set s [script $s append $e]}; get s"
	}
	pad := false
	if expr == "" {
		pad = true
		length += 3
		expr = "set s {}; list (1 2 3) foreach i {set s [script $s append {idem y}]}; set w [script $s append"
		for i := range kinds {
			expr += " " + part(i)
		}
		expr += "]; script $s append {act other}; idem $w"
	}
	r := Run(w.scope, "let v ["+expr+"]; script $v length")
	sym.Assert(r.Code == core.ResultCode_OK && IsInt(r.Value, int64(length)), "the length is the number of sentences")
	mode := sym.Choice("mode", 5)
	src := [...]string{
		"eval $v",
		"proc p {s} {eval $s}; eval $v; p $v",
		"proc p {s} {eval $s}; p $v; eval $v",
		"list (1 2) foreach i $v",
		"macro m {} $v; closure k {} $v; m; k",
	}[mode]
	got := w.run(Proc(w.scope, src))
	vars := [2]core.Value{}
	run := func(local int) core.Result {
		var frame core.Value = core.NIL
		if pad {
			frame = S("y")
		}
		for _, k := range kinds {
			r := core.OK(frame)
			switch k {
			case 0:
				r = w.call(S("a"))
			case 1:
				r = w.call(S("b"), frame)
			case 2:
				r = w.call(append([]core.Value{}, frameArgs(frame)...)...)
			case 3:
				r = w.call(S("d"))
				if r.Code == core.ResultCode_OK {
					vars[local] = r.Value
				}
			case 4:
				if vars[local] == nil {
					return core.ERROR(`cannot resolve variable "x"`)
				}
				r = w.call(S("e"), vars[local])
			case 6:
				r = w.call(T(S("1"), S("2")), S("s"), S("t"))
			}
			if r.Code != core.ResultCode_OK {
				return r
			}
			frame = r.Value
		}
		return core.OK(frame)
	}
	order := [...][]int{{0}, {0, 1}, {1, 0}, {0, 0}, {0, 0}}[mode]
	want := core.OK(core.NIL)
	for _, local := range order {
		want = run(local)
		if want.Code != core.ResultCode_OK {
			break
		}
	}
	w.check(got, want)
}

// frameArgs is the argument list of |> act c after frame.
func frameArgs(frame core.Value) []core.Value { return []core.Value{frame, S("c")} }

// ScriptTuples: a tuple as a script is one sentence of its values, or none.
func ScriptTuples() {
	scope := NewRoot(nil)
	Reg(scope, "act", func(args []core.Value, _ *hel.Scope) core.Result {
		return core.OK(T(append([]core.Value{}, args[1:]...)...))
	})
	atoms := []core.Value{S("act"), S("a"), core.NIL, T(), T(S("act")), T(T()), T(S("act"), S("b")), L(S("c")), Script("act d"), core.INT(1)}
	n := sym.Choice("n", sym.Param("N", 2)+1)
	vs := make([]core.Value, n)
	for i := range vs {
		vs[i] = atoms[sym.Choice("value", len(atoms))]
	}
	size := int64(1)
	if n == 0 {
		size = 0
	}
	more := sym.Choice("more", 3)
	var r core.Result
	switch more {
	case 0:
		r = Call(scope, S("script"), T(vs...))
	case 1:
		r = Call(scope, S("script"), T(vs...), S("append"), T())
	case 2:
		r = Call(scope, S("script"), Script("act x"), S("append"), T(vs...))
		size++
	}
	v, ok := r.Value.(core.ScriptValue)
	sym.Assert(r.Code == core.ResultCode_OK && ok, "tuples give scripts")
	l := Call(scope, S("script"), v, S("length"))
	sym.Assert(l.Code == core.ResultCode_OK && IsInt(l.Value, size), "a tuple gives one sentence")
	if n > 0 {
		last := v.Script.Sentences[size-1].Words
		sym.Assert(len(last) == n, "the sentence has a word per value")
		for i, w := range last {
			sym.Assert(w.Value != nil && Same(w.Value, vs[i]), "the words are the values")
		}
		want := Call(scope, vs...)
		got := Call(scope, S("eval"), v)
		sym.Assert(got.Code == want.Code && (got.Code != core.ResultCode_OK || Same(got.Value, want.Value)), "the sentence runs as the words")
		sym.Reach(Code(got))
	}
	sym.Reach("end")
}
