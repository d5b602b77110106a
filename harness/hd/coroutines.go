package hd

import (
	"helena/core"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- coroutines ----

// coModel is the reference of a coroutine: steps run in order, each of which
// may suspend it.
type coModel struct {
	steps   []func() core.Result
	i       int
	started bool
	done    bool
	running bool
	pending core.Value
	final   core.Result
}

func (c *coModel) run() core.Result {
	c.running = true
	r := c.steps1()
	c.running = false
	switch r.Code {
	case core.ResultCode_YIELD:
		c.pending = r.Value
		return core.OK(r.Value)
	case core.ResultCode_OK, core.ResultCode_RETURN:
		c.final = core.OK(r.Value)
	case core.ResultCode_ERROR:
		c.final = r
	default:
		c.final = core.ERROR("unexpected " + core.RESULT_CODE_NAME(r))
	}
	c.done = true
	return c.final
}

func (c *coModel) steps1() core.Result {
	r := core.OK(c.pending)
	for c.i < len(c.steps) {
		r = c.steps[c.i]()
		c.i++
		if r.Code != core.ResultCode_OK {
			return r
		}
	}
	if r.Value == nil {
		r.Value = core.NIL
	}
	return r
}

func (c *coModel) wait() core.Result {
	switch {
	case c.running:
		return core.ERROR("coroutine is running")
	case c.done:
		return c.final
	}
	c.started = true
	return c.run()
}

func (c *coModel) yield(v core.Value) core.Result {
	switch {
	case !c.started:
		return core.ERROR("coroutine is inactive")
	case c.done:
		return core.ERROR("coroutine is done")
	case c.running:
		return core.ERROR("coroutine is running")
	}
	if v != nil {
		c.pending = v
	}
	return c.run()
}

// Coroutines: any history of two coroutines, one of which drives the other or
// itself.
func Coroutines() {
	w := newWorld(NewRoot(nil), sym.Param("L", 6))
	w.answer = func(_ string, v core.Value) core.Value { return v }
	w.codes = func(string) core.ResultCode {
		if sym.Param("ALL", 0) > 0 {
			return AnyCode("code")
		}
		switch sym.Choice("code", 3) {
		case 0:
			return core.ResultCode_OK
		case 1:
			return core.ResultCode_YIELD
		}
		return core.ResultCode_ERROR
	}
	cs := []*coModel{{}, {}}
	step := func(args ...core.Value) func() core.Result {
		return func() core.Result { r, _ := w.next(args...); return r }
	}
	inner := sym.Choice("inner", 3)
	target := sym.Choice("target", 2)
	// the value given back is any one
	given, vsrc := core.Value(S("v")), "v"
	if sym.Param("NILS", 0) > 0 {
		switch sym.Choice("given", 3) {
		case 1:
			given, vsrc = core.NIL, "[]"
		case 2:
			given, vsrc = T(), "()"
		}
	}
	src := [...]string{"wait", "yield", "yield " + vsrc}[inner]
	op := func(c *coModel, k int) core.Result {
		switch k {
		case 0:
			return c.wait()
		case 1:
			return c.yield(nil)
		}
		return c.yield(given)
	}
	via := ""
	if sym.Param("VIA", 0) > 0 {
		via = [...]string{"", "eval ", "catch ", "macro m {} "}[sym.Choice("via", 4)]
	}
	// the body of the second one may be in another command
	body1 := "act c; idem [[$co" + letter(target) + "] " + src + "]; act d"
	switch via {
	case "eval ":
		body1 = "eval {" + body1 + "}"
	case "catch ":
		body1 = "catch {" + body1 + "} finally {idem f}"
	case "macro m {} ":
		body1 = "macro m {} {" + body1 + "}; m"
	}
	sym.Assert(Run(w.scope, "set co0 [coroutine {act a; act b}]; set co1 [coroutine {"+body1+"}]").Code == core.ResultCode_OK, "harness: coroutines")
	cs[0].steps = []func() core.Result{step(S("a")), step(S("b"))}
	cs[1].steps = []func() core.Result{step(S("c")), func() core.Result { return op(cs[target], inner) }, step(S("d"))}
	if via == "catch " {
		// an uncaught yield ends the body of catch
		inner := cs[1].steps
		b := &coModel{steps: inner}
		cs[1].steps = []func() core.Result{func() core.Result { return b.steps1() }}
	}
	k := sym.Param("K", 3)
	for i := 0; i < k; i++ {
		c := sym.Choice("co", 2)
		o := sym.Choice("op", 3)
		var got core.Result
		switch o {
		case 0:
			got = Run(w.scope, "[$co"+letter(c)+"] wait")
		case 1:
			got = Run(w.scope, "[$co"+letter(c)+"] yield")
		case 2:
			got = Run(w.scope, "[$co"+letter(c)+"] yield "+vsrc)
		}
		want := op(cs[c], o)
		sym.Assert(w.at == len(w.acts), "nothing else runs")
		sym.Assert(got.Code == want.Code, "the result code")
		sym.Assert(Same(got.Value, want.Value), "the result value")
		for j, m := range cs {
			a := Run(w.scope, "[$co"+letter(j)+"] active")
			d := Run(w.scope, "[$co"+letter(j)+"] done")
			sym.Assert(IsBool(a.Value, m.started && !m.done), "active from the first wait to the end")
			sym.Assert(IsBool(d.Value, m.done), "done once it has ended")
		}
		Observe("r", got)
	}
	sym.ObserveInt("acts", len(w.acts))
	sym.Reach("end")
}
