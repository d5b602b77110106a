package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- scripted worlds ----

// act is one call of the act command: its arguments and how it ended.
type act struct {
	args []core.Value
	r    core.Result
}

// world records the calls of the act command, each of which ends in any way,
// and the yields seen by the host, each of which is answered.
type world struct {
	scope *hel.Scope
	limit int
	acts  []act
	sent  []core.Value
	outs  []core.Value
	// answer chooses the value of an act or the answer to its yield.
	answer func(tag string, v core.Value) core.Value
	codes  func(tag string) core.ResultCode

	// replay position of the reference
	at   int
	outN int
	want []core.Value
}

func letter(n int) string { return string(rune('0' + n)) }

// anyAnswer: acts whose tag starts with t give booleans or not, others text.
func anyAnswer(tag string, v core.Value) core.Value {
	if tag[0] == 't' {
		switch sym.Choice("bool", 3) {
		case 0:
			return core.BOOL(true)
		case 1:
			return core.BOOL(false)
		}
		return S("nob")
	}
	return v
}

// pools selects how pools behave: reused at once, reused or not, or shared with
// other goroutines.
func pools() {
	switch sym.Param("POOLS", 0) {
	case 1:
		sym.AnyPools()
	case 2:
		sym.SharedPools()
	}
}

// assertAlone checks that what other goroutines may use is as it was.
func assertAlone() {
	if sym.Param("POOLS", 0) == 2 {
		sym.Assert(sym.PoolsUntouched(), "what is put back in a pool is not changed")
		sym.Assert(sym.GlobalsUntouched(), "what interpreters share is not changed")
	}
}

func newWorld(scope *hel.Scope, limit int) *world {
	w := &world{scope: scope, limit: limit, answer: anyAnswer}
	pools()
	w.codes = func(string) core.ResultCode { return AnyCode("code") }
	Reg(scope, "act", func(args []core.Value, _ *hel.Scope) core.Result {
		a := act{args: append([]core.Value{}, args[1:]...)}
		n := letter(len(w.acts))
		tag := text(args[1:])
		if len(w.acts) >= w.limit {
			a.r = core.ERROR("limit")
		} else {
			a.r = core.Result{Code: w.codes(tag), Value: S("r" + n)}
			switch a.r.Code {
			case core.ResultCode_OK:
				a.r.Value = w.answer(tag, w.anyValue(a.r.Value))
			case core.ResultCode_YIELD, core.ResultCode_RETURN:
				a.r.Value = w.anyValue(a.r.Value)
			case core.ResultCode_CUSTOM:
				a.r.Data = CustomCode
			}
		}
		w.acts = append(w.acts, a)
		return a.r
	})
	return w
}

// anyValue is v or a value of one of VALUES other kinds.
func (w *world) anyValue(v core.Value) core.Value {
	if k := sym.Param("VALUES", 0); k > 0 {
		switch sym.Choice("value", k+1) {
		case 1:
			return core.NIL
		case 2:
			return T()
		case 3:
			return T(v, core.NIL)
		case 4:
			return L(v)
		case 5:
			return core.FALSE
		case 6:
			return core.INT(0)
		case 7:
			return Script("act wrong")
		case 8:
			return S("")
		}
	}
	return v
}

// run drives a process to its end, answering its yields.
func (w *world) run(p *hel.Process) core.Result {
	for i := 0; ; i++ {
		r := p.Run()
		if r.Code != core.ResultCode_YIELD || i > 2*w.limit+2 {
			return r
		}
		w.outs = append(w.outs, r.Value)
		tag := "-"
		if len(w.acts) > 0 {
			tag = text(w.acts[len(w.acts)-1].args)
		}
		v := w.answer(tag, w.anyValue(S("s"+letter(len(w.outs)-1))))
		w.sent = append(w.sent, v)
		p.YieldBack(v)
	}
}

// text is the text of the first value.
func text(vs []core.Value) string {
	if len(vs) > 0 {
		if s, ok := vs[0].(core.StringValue); ok {
			return s.Value
		}
	}
	return "-"
}

// next replays the next call in the reference; args are what it must have been
// called with. A yield is not answered.
func (w *world) next(args ...core.Value) (core.Result, bool) {
	if w.at >= len(w.acts) {
		sym.Fail("everything that has to run runs")
		return core.ERROR("missing"), false
	}
	a := w.acts[w.at]
	w.at++
	sym.Assert(SameAll(a.args, args), "what runs is what has to run, in order, with its values")
	return a.r, true
}

// yielded replays a yield to the host and gives its answer.
func (w *world) yielded(v core.Value) core.Value {
	w.want = append(w.want, v)
	if len(w.want) > len(w.sent) {
		sym.Fail("every yield reaches the host")
		return core.NIL
	}
	return w.sent[len(w.want)-1]
}

// call replays a call and its yield, if any.
func (w *world) call(args ...core.Value) core.Result {
	r, ok := w.next(args...)
	if ok && r.Code == core.ResultCode_YIELD {
		return core.OK(w.yielded(r.Value))
	}
	return r
}

// check compares the outcome with the reference's.
func (w *world) check(got, want core.Result) {
	assertAlone()
	sym.Assert(w.at == len(w.acts), "nothing else runs")
	sym.Assert(SameAll(w.outs, w.want), "the host sees each yield")
	sym.Assert(got.Code == want.Code, "the result code")
	sym.Assert(Same(got.Value, want.Value), "the result value")
	if want.Code == core.ResultCode_CUSTOM {
		d, ok := got.Data.(core.CustomResultCode)
		w, ok2 := want.Data.(core.CustomResultCode)
		sym.Assert(ok && ok2 && d.Name == w.Name, "the custom result code")
	}
	Observe("r", got)
	sym.ObserveInt("acts", len(w.acts))
	sym.ObserveInt("yields", len(w.outs))
	sym.Reach("end")
}

func truth(v core.Value) (core.Result, bool) { return core.ValueToBoolean(v) }

// ---- loops ----

// WhileLoops: while with any test and body endings.
func WhileLoops() {
	w := newWorld(NewRoot(nil), sym.Param("L", 4))
	var p *hel.Process
	want := core.OK(core.NIL)
	constant := sym.Choice("test", 4)
	switch constant {
	case 0:
		p = Proc(w.scope, "while {act t} {act b; act c}")
	case 1:
		p = Proc(w.scope, "while true {act b; act c}")
	case 2:
		p = Proc(w.scope, "while false {act b; act c}")
	case 3:
		p = Proc(w.scope, "while nob {act b; act c}")
	}
	got := w.run(p)
	run := func() (core.Result, bool) {
		last := core.OK(core.NIL)
		for {
			t := core.OK(core.BOOL(constant == 1))
			switch constant {
			case 0:
				t = w.call(S("t"))
			case 3:
				t = core.OK(S("nob"))
			}
			if t.Code != core.ResultCode_OK {
				return t, true
			}
			r, b := truth(t.Value)
			if r.Code != core.ResultCode_OK {
				return r, true
			}
			if !b {
				return last, true
			}
			b1 := w.call(S("b"))
			if b1.Code == core.ResultCode_OK {
				b1 = w.call(S("c"))
			}
			switch b1.Code {
			case core.ResultCode_OK:
				last = b1
			case core.ResultCode_BREAK:
				return last, true
			case core.ResultCode_CONTINUE:
			default:
				return b1, true
			}
			if w.at > w.limit {
				return last, false
			}
		}
	}
	want, _ = run()
	w.check(got, want)
}

// source is a loop source: items, or calls of act.
type source struct {
	value core.Value
	items []core.Value // nil when it calls act
	calls func(i int) core.Result
	shape core.Value
	vars  []string
	done  bool
}

// LoopSources: loop with any sources, shapes and endings.
func LoopSources() {
	w := newWorld(NewRoot(nil), sym.Param("L", 3))
	w.answer = func(tag string, v core.Value) core.Value {
		if tag[0] == 'g' && sym.Bool("pair") {
			return T(v, S("second"))
		}
		return v
	}
	n := sym.Choice("sources", sym.Param("S", 2)+1)
	index := sym.Bool("index")
	args := []core.Value{S("loop")}
	if index {
		args = append(args, S("i"))
	}
	srcs := make([]*source, n)
	for k := range srcs {
		tag := letter(k)
		s := &source{}
		srcs[k] = s
		if sym.Bool("shape") {
			s.shape, s.vars = T(S("a"+tag), S("b"+tag)), []string{"a" + tag, "b" + tag}
		} else {
			s.shape, s.vars = S("a"+tag), []string{"a" + tag}
		}
		g := S("g" + tag)
		switch sym.Choice("source", 6) {
		case 0:
			s.items = []core.Value{}
			s.value = L()
		case 1:
			s.items = []core.Value{T(S("x"), S("y")), S("z")}
			if sym.Param("VALUES", 0) > 0 {
				switch sym.Choice("items", 3) {
				case 1:
					s.items = []core.Value{core.NIL, S("z")}
				case 2:
					s.items = []core.Value{T(core.NIL, T()), T(S("x"), core.NIL), core.NIL}
				}
			}
			s.value = L(s.items...)
		case 2:
			s.items = []core.Value{T(S("k"), S("v"))}
			s.value = core.DICT(map[string]core.Value{"k": S("v")})
		case 3:
			s.value = Script("act g" + tag)
			s.calls = func(i int) core.Result { return w.call(g) }
		case 4:
			s.value = T(S("act"), g)
			s.calls = func(i int) core.Result { return w.call(g, core.INT(int64(i))) }
		case 5:
			s.value = S("nope")
		}
		args = append(args, s.shape, s.value)
	}
	body := "act b"
	if index {
		body += " [get i -]"
	}
	for _, s := range srcs {
		for _, v := range s.vars {
			body += " [get " + v + " -]"
		}
	}
	args = append(args, Script(body))
	w.scope.SetNamedVariable("outer", S("kept"))
	got := w.run(w.scope.PrepareProcess(w.scope.CompileArgs(args)))
	reference := func() core.Result {
		for _, s := range srcs {
			if s.items == nil && s.calls == nil {
				return core.ERROR("invalid source")
			}
		}
		last := core.OK(core.NIL)
		active := n
		for i := 0; i < 9; i++ {
			var bound []core.Value
			for _, s := range srcs {
				var r core.Result
				vals := make([]core.Value, len(s.vars))
				for j := range vals {
					vals[j] = S("-")
				}
				switch {
				case s.done:
				case s.calls != nil:
					r = s.calls(i)
					switch r.Code {
					case core.ResultCode_OK:
						if t, ok := IsTuple(r.Value); len(s.vars) == 1 {
							vals[0] = r.Value
						} else if ok && len(t) >= 2 {
							vals[0], vals[1] = t[0], t[1]
						} else {
							return core.ERROR("bad value shape")
						}
					case core.ResultCode_BREAK:
						s.done = true
						active--
					case core.ResultCode_CONTINUE:
					default:
						return r
					}
				case i >= len(s.items):
					s.done = true
					active--
				default:
					if t, ok := IsTuple(s.items[i]); len(s.vars) == 1 {
						vals[0] = s.items[i]
					} else if ok {
						vals[0], vals[1] = t[0], t[1]
					} else {
						return core.ERROR("bad value shape")
					}
				}
				bound = append(bound, vals...)
			}
			if n > 0 && active == 0 {
				return last
			}
			if index {
				bound = append([]core.Value{core.INT(int64(i))}, bound...)
			}
			r := w.call(append([]core.Value{S("b")}, bound...)...)
			switch r.Code {
			case core.ResultCode_OK:
				last = r
			case core.ResultCode_BREAK:
				return last
			case core.ResultCode_CONTINUE:
			default:
				return r
			}
		}
		sym.Fail("harness: unbounded loop")
		return last
	}
	w.check(got, reference())
	sym.Assert(w.scope.ResolveVariable("a0") == nil && w.scope.ResolveVariable("i") == nil, "loop variables do not leak")
}

// ---- branches ----

// IfBranches: if with any tests and bodies.
func IfBranches() {
	w := newWorld(NewRoot(nil), sym.Param("L", 3))
	n := 1 + sym.Choice("n", sym.Param("N", 3))
	args := []core.Value{S("if")}
	type branch struct {
		test   core.Value
		acts   bool
		script bool
	}
	var bs []branch
	for i := 0; i < n; i++ {
		b := branch{script: true}
		if i > 0 {
			if i == n-1 && sym.Bool("else") {
				args = append(args, S("else"))
			} else {
				args = append(args, S("elseif"))
			}
		}
		if i == 0 || !IsStr(args[len(args)-1], "else") {
			switch sym.Choice("test", 5) {
			case 0:
				b.test, b.acts = Script("act t"+letter(i)), true
			case 1:
				b.test = core.BOOL(true)
			case 2:
				b.test = S("false")
			case 3:
				b.test = S("nob")
			case 4:
				b.test = L()
			}
			args = append(args, b.test)
		}
		if sym.Bool("script") {
			args = append(args, Script("act b"+letter(i)))
		} else {
			b.script = false
			args = append(args, S("else"))
		}
		bs = append(bs, b)
	}
	got := w.run(w.scope.PrepareProcess(w.scope.CompileArgs(args)))
	reference := func() core.Result {
		for i, b := range bs {
			if b.test != nil {
				v := b.test
				if b.acts {
					r := w.call(S("t" + letter(i)))
					if r.Code != core.ResultCode_OK {
						return r
					}
					v = r.Value
				}
				r, t := truth(v)
				if r.Code != core.ResultCode_OK {
					return r
				}
				if !t {
					continue
				}
			}
			if !b.script {
				return core.ERROR("body must be a script")
			}
			return w.call(S("b" + letter(i)))
		}
		return core.OK(core.NIL)
	}
	w.check(got, reference())
}

// WhenBranches: when with or without command, any tests and bodies.
func WhenBranches() {
	w := newWorld(NewRoot(nil), sym.Param("L", 4))
	w.answer = func(tag string, v core.Value) core.Value {
		if tag[0] == 'c' {
			switch sym.Choice("cmd", 4) {
			case 3:
				return core.NewCommandValue(w.scope.ResolveNamedCommand("act"))
			case 0:
				return T(S("act"), S("t"))
			case 1:
				return S("nope")
			}
			return core.BOOL(true)
		}
		return anyAnswer(tag, v)
	}
	n := sym.Choice("n", sym.Param("N", 2)+1)
	args := []core.Value{S("when")}
	command := sym.Choice("command", 4)
	switch command {
	case 1:
		args = append(args, T(S("act"), S("t")))
	case 2:
		args = append(args, Script("act c"))
	case 3:
		args = append(args, S("nope"))
	}
	var cases []core.Value
	tests := make([]int, n)
	bodies := make([]bool, n)
	for i := range tests {
		tests[i] = sym.Choice("test", 5)
		switch tests[i] {
		case 0:
			cases = append(cases, Script("act t"+letter(i)))
		case 1:
			cases = append(cases, T(S("act"), S("t"+letter(i))))
		case 2:
			cases = append(cases, S("true"))
		case 3:
			cases = append(cases, S("false"))
		case 4:
			cases = append(cases, S("nob"))
		}
		bodies[i] = sym.Bool("script")
		if bodies[i] {
			cases = append(cases, Script("act b"+letter(i)))
		} else {
			cases = append(cases, S("x"))
		}
	}
	dflt := sym.Bool("default")
	if dflt {
		cases = append(cases, Script("act d"))
	}
	args = append(args, T(cases...))
	got := w.run(w.scope.PrepareProcess(w.scope.CompileArgs(args)))
	reference := func() core.Result {
		for i, t := range tests {
			var r core.Result
			cmd := command
			if command == 2 {
				r = w.call(S("c"))
				if r.Code != core.ResultCode_OK {
					return r
				}
				switch {
				case IsStr(r.Value, "nope"):
					cmd = 3
				case IsBool(r.Value, true):
					cmd = 4
				case r.Value.Type() == core.ValueType_COMMAND:
					cmd = 6
				default:
					if _, ok := IsTuple(r.Value); ok {
						cmd = 1
					} else {
						cmd = 5 // the answer to a yield
					}
				}
			}
			test := cases[2*i]
			switch cmd {
			case 0:
				switch t {
				case 0, 1:
					r = w.call(S("t" + letter(i)))
				default:
					r = core.OK(test)
				}
			case 1:
				if t == 1 {
					r = w.call(S("t"), S("act"), S("t"+letter(i)))
				} else {
					r = w.call(S("t"), test)
				}
			case 3:
				return core.ERROR(`cannot resolve command "nope"`)
			case 4:
				// true as a command: arity or subcommand errors, and then
				// no branch runs
				r = Call(w.scope, append([]core.Value{core.BOOL(true)}, testArgs(test)...)...)
				if r.Code != core.ResultCode_OK {
					return r
				}
			case 5:
				sym.Assume(false)
			case 6:
				r = w.call(testArgs(test)...)
			}
			if r.Code != core.ResultCode_OK {
				return r
			}
			rb, b := truth(r.Value)
			if rb.Code != core.ResultCode_OK {
				return rb
			}
			if b {
				if !bodies[i] {
					return core.ERROR("body must be a script")
				}
				return w.call(S("b" + letter(i)))
			}
		}
		if dflt {
			return w.call(S("d"))
		}
		return core.OK(core.NIL)
	}
	w.check(got, reference())
}

func testArgs(test core.Value) []core.Value {
	if t, ok := IsTuple(test); ok {
		return t
	}
	return []core.Value{test}
}

// ---- catch ----

// body is a sequence of calls of act that can be suspended.
type body struct {
	w    *world
	tags []core.Value
	arg  core.Value
	i    int
	last core.Result
}

func (b *body) run() core.Result {
	for b.i < len(b.tags) {
		args := []core.Value{b.tags[b.i]}
		if b.arg != nil {
			args = append(args, b.arg)
		}
		r, ok := b.w.next(args...)
		if !ok || r.Code == core.ResultCode_YIELD {
			return r
		}
		b.i++
		b.last = r
		if r.Code != core.ResultCode_OK {
			return r
		}
	}
	return b.last
}

func (b *body) resume(v core.Value) core.Result {
	b.i++
	b.last = core.OK(v)
	return b.run()
}

// through runs a body to its end, its yields reaching the host.
func (b *body) through() core.Result {
	r := b.run()
	for r.Code == core.ResultCode_YIELD {
		r = b.resume(b.w.yielded(r.Value))
	}
	return r
}

// CatchHandlers: catch with any handlers and endings.
func CatchHandlers() {
	w := newWorld(NewRoot(nil), sym.Param("L", 4))
	pass := core.CustomResultCode{Name: "pass"}
	w.answer = func(_ string, v core.Value) core.Value { return v }
	kinds := []string{"return", "yield", "error", "break", "continue"}
	has := sym.Choice("handler", 1<<len(kinds))
	if sym.Param("ALL", 0) == 0 {
		// one handler, none or all
		sym.Assume(has&(has-1) == 0 || has == 1<<len(kinds)-1)
	}
	src := "catch {act b; act c}"
	for i, k := range kinds {
		if has>>i&1 == 0 {
			continue
		}
		if i < 3 {
			src += " " + k + " v {act h" + k + " $v; act e" + k + " $v}"
		} else {
			src += " " + k + " {act h" + k + "; act e" + k + "}"
		}
	}
	finally := sym.Bool("finally")
	if finally {
		src += " finally {act f; act g}"
	}
	sym.Assume(has != 0 || finally)
	handler := func(code core.ResultCode) string {
		switch code {
		case core.ResultCode_RETURN:
			if has&1 != 0 {
				return "return"
			}
		case core.ResultCode_YIELD:
			if has&2 != 0 {
				return "yield"
			}
		case core.ResultCode_ERROR:
			if has&4 != 0 {
				return "error"
			}
		case core.ResultCode_BREAK:
			if has&8 != 0 {
				return "break"
			}
		case core.ResultCode_CONTINUE:
			if has&16 != 0 {
				return "continue"
			}
		}
		return ""
	}
	Reg(w.scope, "act", actPass(w, pass))
	p := Proc(w.scope, src)
	got := w.run(p)
	caught := func() core.Result {
		b := &body{w: w, tags: []core.Value{S("b"), S("c")}}
		r := b.run()
		for {
			h := handler(r.Code)
			if h == "" {
				return r
			}
			hb := &body{w: w, tags: []core.Value{S("h" + h), S("e" + h)}}
			if h != "break" && h != "continue" {
				hb.arg = r.Value
			}
			hr := hb.through()
			if hr.Code == core.ResultCode_OK {
				return hr
			}
			if d, ok := hr.Data.(core.CustomResultCode); !ok || hr.Code != core.ResultCode_CUSTOM || d.Name != "pass" {
				hr.Data = final{hr.Data}
				return hr
			}
			if r.Code != core.ResultCode_YIELD {
				return r
			}
			r = b.resume(w.yielded(r.Value))
		}
	}
	reference := func() core.Result {
		r := caught()
		if f, ok := r.Data.(final); ok {
			// a handler that fails ends everything
			r.Data = f.data
			return r
		}
		if finally {
			f := (&body{w: w, tags: []core.Value{S("f"), S("g")}}).through()
			if f.Code != core.ResultCode_OK {
				return f
			}
		}
		if r.Code == core.ResultCode_YIELD {
			// an uncaught yield ends the body; its answer is the result
			return core.OK(w.yielded(r.Value))
		}
		return r
	}
	w.check(got, reference())
}

type final struct{ data any }

// actPass is the act command that may also end with pass.
func actPass(w *world, pass core.CustomResultCode) Cmd {
	return func(args []core.Value, _ *hel.Scope) core.Result {
		a := act{args: append([]core.Value{}, args[1:]...)}
		n := letter(len(w.acts))
		if len(w.acts) >= w.limit {
			a.r = core.OK(S("limit"))
		} else {
			a.r = AnyResult("code", S("r"+n))
			switch a.r.Code {
			case core.ResultCode_OK, core.ResultCode_YIELD, core.ResultCode_RETURN, core.ResultCode_ERROR:
				a.r.Value = w.anyValue(a.r.Value)
			}
			if a.r.Code == core.ResultCode_CUSTOM && sym.Bool("pass") {
				a.r.Data = pass
			}
		}
		w.acts = append(w.acts, a)
		return a.r
	}
}

// CatchCodes: catch with a body only gives the ending of the body as a tuple.
func CatchCodes() {
	w := newWorld(NewRoot(nil), 2)
	w.answer = func(_ string, v core.Value) core.Value { return v }
	direct := sym.Bool("direct")
	src := "catch {act b; act c}"
	if !direct {
		// through commands that continue elsewhere
		src = [...]string{"catch {if true {act b; act c}}", "macro m {} {act b; act c}; catch {m}", "closure k {} {act b; act c}; catch {idem [k]; k2}", "catch {(if true) {act b; act c}}"}[sym.Choice("via", 4)]
		Reg(w.scope, "k2", func(args []core.Value, _ *hel.Scope) core.Result { return core.OK(S("k2")) })
	}
	got := Proc(w.scope, src).Run()
	b := &body{w: w, tags: []core.Value{S("b"), S("c")}}
	r := b.run()
	if r.Code == core.ResultCode_OK && len(src) > 40 && src[0] == 'c' && src[1] == 'l' {
		r = core.OK(S("k2"))
	}
	want := T(S(core.RESULT_CODE_NAME(r)), r.Value)
	switch r.Code {
	case core.ResultCode_BREAK, core.ResultCode_CONTINUE, core.ResultCode_CUSTOM:
		want = T(S(core.RESULT_CODE_NAME(r)))
	}
	w.check(got, core.OK(want))
}

// CatchArguments: catch on any arguments.
func CatchArguments() {
	w := newWorld(NewRoot(nil), 2)
	n := sym.Choice("n", sym.Param("N", 4)+1)
	args := []core.Value{S("catch")}
	for i := 0; i < n; i++ {
		switch sym.Choice("arg", 7) {
		case 0:
			args = append(args, Script("act a"))
		case 1:
			args = append(args, S("error"))
		case 2:
			args = append(args, S("yield"))
		case 3:
			args = append(args, S("break"))
		case 4:
			args = append(args, S("finally"))
		case 5:
			args = append(args, S("v"))
		case 6:
			args = append(args, L())
		}
	}
	got := w.run(w.scope.PrepareProcess(w.scope.CompileArgs(args)))
	sym.Assert(got.Code != core.ResultCode_YIELD, "the yields are answered")
	Observe("r", got)
	sym.Reach("end")
}
