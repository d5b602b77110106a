package hd

import (
	"helena/core"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// Pipelines: last results, pipes and resumptions within a script.
func Pipelines() {
	w := newWorld(NewRoot(nil), 9)
	w.answer = func(_ string, v core.Value) core.Value { return v }
	w.codes = func(string) core.ResultCode {
		if sym.Bool("yield") {
			return core.ResultCode_YIELD
		}
		if sym.Param("E", 0) > 0 && sym.Bool("error") {
			return core.ResultCode_ERROR
		}
		return core.ResultCode_OK
	}
	k := 1 + sym.Choice("k", sym.Param("K", 3))
	src := "eval {idem outside}; eval {"
	kinds := make([]int, k)
	for i := range kinds {
		kinds[i] = sym.Choice("sentence", 12)
		src += [...]string{
			"act a; ", "^; ", "^ ignored; ", "|>; ", "|> act; ", "|> act b [^]; ",
			"|> act [act c]; ", "act d [^]; ", "act [^] [act e] [^]; ", "|> |> act; ", "|> (act f); ", "; ",
		}[kinds[i]]
	}
	src += "}"
	got := w.run(Proc(w.scope, src))
	reference := func() core.Result {
		var frame core.Value = core.NIL // result of the last command at this level
		var r core.Result
		for _, s := range kinds {
			last := frame
			r = core.OK(frame)
			switch s {
			case 0:
				r = w.call(S("a"))
			case 1, 2, 3, 9, 11:
				continue
			case 4:
				r = w.call(last)
			case 5:
				r = w.call(last, S("b"), last)
			case 6:
				c := w.call(S("c"))
				if c.Code != core.ResultCode_OK {
					return c
				}
				r = w.call(last, c.Value)
			case 7:
				r = w.call(S("d"), last)
			case 8:
				c := w.call(S("e"))
				if c.Code != core.ResultCode_OK {
					return c
				}
				r = w.call(last, c.Value, c.Value)
			case 10:
				r = w.call(S("f"), last)
			}
			if r.Code != core.ResultCode_OK {
				return r
			}
			frame = r.Value
		}
		return core.OK(frame)
	}
	w.check(got, reference())
}
