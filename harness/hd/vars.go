package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// binding is a name's definition in the model.
type binding struct {
	name  string
	kind  int // 1 constant, 2 variable, 3 local
	value core.Value
}

// env models one scope.
type env struct{ bs []binding }

func (e *env) find(n string) int {
	for i, b := range e.bs {
		if b.name == n {
			return i
		}
	}
	return -1
}

func (e *env) put(n string, kind int, v core.Value) {
	if i := e.find(n); i >= 0 {
		e.bs[i] = binding{n, kind, v}
		return
	}
	e.bs = append(e.bs, binding{n, kind, v})
}

func (e *env) del(n string) {
	if i := e.find(n); i >= 0 {
		e.bs = append(append([]binding{}, e.bs[:i]...), e.bs[i+1:]...)
	}
}

func (e *env) kind(n string) int {
	if i := e.find(n); i >= 0 {
		return e.bs[i].kind
	}
	return 0
}

// shape is a name or a tuple of names.
func shape(name string) core.Value {
	switch sym.Choice(name, 10) {
	case 0:
		return S("a")
	case 1:
		return S("b")
	case 2:
		return T(S("a"), S("b"))
	case 3:
		return T(S("b"), T(S("c"), S("a")))
	case 4:
		return T()
	case 5:
		return L()
	case 6:
		return T(S("a"), L())
	case 7:
		return T(S("b"), T(S("a")))
	case 8:
		return T(T(S("a")), T())
	}
	return T(S("c"), T())
}

// payload is a value of assorted shapes.
func payload(name string, tag string) core.Value {
	v := func(i string) core.Value { return S(tag + i) }
	switch sym.Choice(name, 9) {
	case 8:
		return T(core.NIL, T(core.NIL, v("0")))
	case 7:
		return core.NIL
	case 6:
		return T(T(v("0"), T(v("1"))), T(v("2")))
	case 0:
		return v("0")
	case 1:
		return T(v("0"), v("1"))
	case 2:
		return T(v("0"), T(v("1"), v("2")), v("3"))
	case 3:
		return T(v("0"), T(v("1")))
	case 4:
		return L(v("0"), v("1"))
	}
	return T()
}

// pairs matches a shape with a value; ok is false when they do not fit.
func pairs(shape, value core.Value, out []binding) ([]binding, bool) {
	names, isT := IsTuple(shape)
	if !isT {
		s, ok := shape.(core.StringValue)
		if !ok {
			return out, false
		}
		return append(out, binding{name: s.Value, value: value}), true
	}
	vs, ok := IsTuple(value)
	if !ok || len(vs) < len(names) {
		return out, false
	}
	for i, n := range names {
		if out, ok = pairs(n, vs[i], out); !ok {
			return out, false
		}
	}
	return out, true
}

func names(shape core.Value, out []string) ([]string, bool) {
	ns, isT := IsTuple(shape)
	if !isT {
		s, ok := shape.(core.StringValue)
		if !ok {
			return out, false
		}
		return append(out, s.Value), true
	}
	ok := true
	for _, n := range ns {
		if out, ok = names(n, out); !ok {
			return out, false
		}
	}
	return out, true
}

func (e *env) check(scope *hel.Scope, label string) {
	for _, n := range []string{"a", "b", "c"} {
		i := e.find(n)
		got := scope.ResolveVariable(n)
		if i < 0 {
			sym.Assert(got == nil, label+": undefined names stay undefined")
		} else {
			sym.Assert(got != nil && Same(got, e.bs[i].value), label+": names keep their values")
		}
	}
}

// VariableHistories: any sequence of let, set, unset, get and exists behaves
// like a map from names to constants, variables and locals; a command that
// fails changes nothing.
func VariableHistories() {
	root := NewRoot(nil)
	scope := root
	var e env
	if sym.Bool("local") {
		// inside a macro, whose argument a is a local
		Reg(root, "grab", func(args []core.Value, s *hel.Scope) core.Result {
			scope = s
			return core.OK(core.NIL)
		})
		Run(root, "macro m {a} {grab}; m L")
		e.put("a", 3, S("L"))
		sym.Assert(scope != root, "the body of a macro has its own scope")
	}
	k := 1 + sym.Choice("k", sym.Param("K", 2))
	for step := 0; step < k; step++ {
		tag := string(rune('p' + step))
		op := sym.Choice("op", 6)
		switch op {
		case 0, 1:
			sh, v := shape("shape"), payload("value", tag)
			r := Call(scope, S([...]string{"let", "set"}[op]), sh, v)
			ps, ok := pairs(sh, v, nil)
			for _, p := range ps {
				switch e.kind(p.name) {
				case 1, 3:
					ok = false
				case 2:
					ok = ok && op == 1
				}
			}
			if !ok {
				assertError(r, "invalid assignments are errors")
			} else {
				sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, v), "assignments return the value")
				for _, p := range ps {
					e.put(p.name, op+1, p.value)
				}
			}
		case 2:
			sh := shape("shape")
			r := Call(scope, S("unset"), sh)
			ns, ok := names(sh, nil)
			for _, n := range ns {
				ok = ok && e.kind(n) == 2
			}
			if !ok {
				assertError(r, "invalid unsets are errors")
			} else {
				sym.Assert(r.Code == core.ResultCode_OK && IsNil(r.Value), "unset result")
				for _, n := range ns {
					e.del(n)
				}
			}
		case 3:
			n := string(rune('a' + sym.Choice("name", 3)))
			r := Call(scope, S("get"), S(n))
			if i := e.find(n); i >= 0 {
				sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, e.bs[i].value), "get gives the value")
			} else {
				assertError(r, "get of an undefined name")
			}
			r = Call(scope, S("get"), S(n), S("dflt"))
			if i := e.find(n); i >= 0 {
				sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, e.bs[i].value), "get ignores the default of a defined name")
			} else {
				sym.Assert(r.Code == core.ResultCode_OK && IsStr(r.Value, "dflt"), "get gives the default")
			}
		case 4:
			n := string(rune('a' + sym.Choice("name", 3)))
			r := Call(scope, S("exists"), S(n))
			sym.Assert(r.Code == core.ResultCode_OK && IsBool(r.Value, e.find(n) >= 0), "exists tells whether the name is defined")
		case 5:
			n := string(rune('a' + sym.Choice("name", 3)))
			r := Run(scope, "idem $"+n)
			if i := e.find(n); i >= 0 {
				sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, e.bs[i].value), "substitution gives the value")
			} else {
				assertError(r, "substitution of an undefined name")
			}
		}
		e.check(scope, "after a step")
	}
	sym.Reach("end")
}

// QualifiedAccess: get and exists accept tuples of names and selectors.
func QualifiedAccess() {
	scope := NewRoot(nil)
	n := sym.Choice("n", 4)
	vs := tags("v", n)
	scope.SetNamedVariable("l", L(vs...))
	scope.SetNamedVariable("d", core.DICT(map[string]core.Value{"k": L(vs...)}))
	scope.SetNamedVariable("x", S("vx"))
	i := sym.Int64("i")
	Def(scope, "i", core.INT(i))
	in := i >= 0 && i < int64(n)
	form := sym.Choice("form", 6)
	src := [...]string{"l[idem $i]", "d(k)[idem $i]", "(l x)", "(l y)", "d(z)", "(x l)[idem $i]"}[form]
	dflt := sym.Bool("default")
	cmd := "get " + src
	if dflt {
		cmd += " dflt"
	}
	var want core.Value
	switch form {
	case 0, 1:
		if in {
			want = vs[sym.ConcretizeInt(int(i))]
		}
	case 2:
		if !dflt {
			want = T(L(vs...), S("vx"))
		}
	}
	tuple := form == 2 || form == 3
	r := Run(scope, cmd)
	switch {
	case form == 5:
		// x is a string: indexing gives a byte when in range
		if i != 0 || !in {
			if dflt {
				sym.Assert(r.Code == core.ResultCode_OK || r.Code == core.ResultCode_ERROR, "never crashes")
			}
		}
	case want != nil:
		sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, want), "qualified get")
	case dflt && !tuple:
		sym.Assert(r.Code == core.ResultCode_OK && IsStr(r.Value, "dflt"), "qualified get with a default")
	default:
		assertError(r, "invalid qualified get")
	}
	if form != 5 {
		e := Run(scope, "exists "+src)
		if tuple {
			assertError(e, "exists does not take tuples")
		} else {
			sym.Assert(e.Code == core.ResultCode_OK && IsBool(e.Value, want != nil), "qualified exists")
		}
	}
	Observe("r", r)
	sym.Reach("end")
}

// GuardScopes: the guards and defaults of a command run where its kind of body
// says, wherever it is called from.
func GuardScopes() {
	scope := NewRoot(nil)
	place := func(s string) string {
		return "set s " + s + "; macro g {v} {idem ($v [get s none] " + s + ")}; "
	}
	form := sym.Choice("form", 8)
	def := [...]string{"((g a)) {idem $a}", "((g ?a)) {idem $a}", "((g ?a dd)) {idem $a}", "((?a {g [get s none]})) {idem $a}", "(a) (g {idem $a})", "((g ?a {get s none})) {idem $a}", "(a) {g $a}", "((g ?a) (g b)) {idem $b}"}[form]
	call := "c" + [...]string{" x", " x", "", "", " x", "", " x", " x"}[form]
	kind := sym.Choice("kind", 3)
	c := [...]string{"macro", "closure", "proc"}[kind] + " c " + def
	sym.Assert(Run(scope, place("outer")).Code == core.ResultCode_OK, "harness: root")
	// where it is defined
	home := [2]string{"outer", "outer"}
	get := ""
	switch sym.Choice("home", 3) {
	case 0:
		get = ""
		sym.Assert(Run(scope, c).Code == core.ResultCode_OK, "harness: command")
	case 1:
		home = [2]string{"inner", "inner"}
		get = "[n] import c; "
		sym.Assert(Run(scope, "namespace n {"+place("inner")+c+"}").Code == core.ResultCode_OK, "harness: command")
	case 2:
		// the commands of the definition scope change later
		home = [2]string{"later", "later"}
		get = "[n] import c; "
		sym.Assert(Run(scope, "namespace n {"+place("inner")+c+"}; [n] eval {"+place("later")+"}").Code == core.ResultCode_OK, "harness: command")
	}
	// where it is called
	caller := [2]string{"outer", "outer"}
	src := get + call
	switch sym.Choice("caller", 6) {
	case 1:
		src = "proc p {} {" + src + "}; p"
		caller[0] = "none"
	case 2:
		src = "namespace o {" + place("other") + "}; [o] eval {" + src + "}"
		caller = [2]string{"other", "other"}
	case 3:
		src = "scope o {" + place("other") + src + "}; o eval {" + call + "}"
		caller = [2]string{"other", "other"}
	case 4:
		src = "closure p {} {" + src + "}; p"
	case 5:
		src = "proc p {s} {" + src + "}; p local"
		caller[0] = "local"
	}
	at := caller
	switch kind {
	case 1:
		at = home
	case 2:
		// bodies of procedures see the commands of their definition scope only
		at = home
		if form == 6 {
			at[0] = "none"
		}
	}
	in := [...]string{"x", "x", "dd", at[0], "x", at[0], "x", "x"}[form]
	got := Run(scope, src)
	sym.Assert(got.Code == core.ResultCode_OK, "the call works")
	sym.Assert(Same(got.Value, T(S(in), S(at[0]), S(at[1]))), "guards, defaults and bodies run where their kind of command says")
	Observe("r", got)
	sym.Reach("end")
}

// ScopeIsolation: which definitions made in a body are visible where, for
// every kind of body.
func ScopeIsolation() {
	scope := NewRoot(nil)
	scope.SetNamedVariable("v", S("outer"))
	scope.SetNamedConstant("k", S("const"))
	Run(scope, "proc cmd {} {idem outer}; macro getv {} {get v none}")
	body := [...]string{
		"set v inner", "let v inner", "set w inner", "let k inner", "unset v", "proc cmd {} {idem inner}", "get v none", "get k none", "cmd", "exists v", "getv",
	}
	what := sym.Choice("what", len(body))
	b := body[what]
	kind := sym.Choice("kind", 10)
	var src string
	own := false   // runs in a scope of its own
	again := false // a second run sees the first one's definitions
	switch kind {
	case 0:
		src = "eval {" + b + "}"
	case 1:
		src = "macro m {} {" + b + "}; m"
	case 2:
		src = "closure m {} {" + b + "}; m"
	case 3:
		src = "[closure {} {" + b + "}]"
		src = "[" + src + "]"
	case 4:
		src, own = "proc m {} {"+b+"}; m", true
	case 5:
		src, own = "scope s {}; s eval {"+b+"}", true
		again = true
	case 6:
		src, own = "scope {return ["+b+"]}", true
	case 7:
		src = "if true {" + b + "}"
	case 8:
		src = "while {" + b + "; idem false} {}; idem none"
		if what == 6 || what == 7 || what == 8 || what == 10 {
			src = "eval {" + b + "}"
		}
	case 9:
		src, own = "namespace s {}; [s] eval {"+b+"}", true
		again = true
	}
	r := Run(scope, src)
	ev := func(s string) core.Result { return Run(scope, s) }
	v, w, k, c := ev("get v none"), ev("get w none"), ev("get k"), ev("cmd")
	wantV, wantW, wantC := "outer", "none", "outer"
	ok := true
	switch what {
	case 0:
		if !own {
			wantV = "inner"
		}
	case 1:
		ok = own
	case 2:
		if !own {
			wantW = "inner"
		}
	case 3:
		ok = own
	case 4:
		ok = !own
		if !own {
			wantV = "none"
		}
	case 5:
		if !own {
			wantC = "inner"
		}
	}
	sym.Assert((r.Code == core.ResultCode_OK) == ok, "redefinition across bodies")
	sym.Assert(IsStr(v.Value, wantV), "variables of the enclosing scope")
	sym.Assert(IsStr(w.Value, wantW), "new variables")
	sym.Assert(IsStr(k.Value, "const"), "constants never change")
	sym.Assert(IsStr(c.Value, wantC), "commands of the enclosing scope")
	// reads
	switch what {
	case 6, 10:
		// getv is a macro: it reads in its caller's scope
		if own {
			sym.Assert(IsStr(r.Value, "none"), "a scope does not see its parent's variables")
		} else {
			sym.Assert(IsStr(r.Value, "outer"), "bodies see their scope's variables")
		}
	case 7:
		if own {
			sym.Assert(IsStr(r.Value, "none"), "a scope does not see its parent's constants")
		} else {
			sym.Assert(IsStr(r.Value, "const"), "bodies see their scope's constants")
		}
	case 8:
		sym.Assert(IsStr(r.Value, "outer"), "a scope sees its ancestors' commands")
	}
	if again && ok {
		at := "s"
		if kind == 9 {
			at = "[s]"
		}
		switch what {
		case 0, 1:
			sym.Assert(IsStr(ev(at+" eval {get v none}").Value, "inner"), "a scope keeps its variables")
		case 2:
			sym.Assert(IsStr(ev(at+" eval {get w none}").Value, "inner"), "a scope keeps its variables")
		case 3:
			sym.Assert(IsStr(ev(at+" eval {get k none}").Value, "inner"), "a scope keeps its constants")
		case 5:
			sym.Assert(IsStr(ev(at+" eval {cmd}").Value, "inner"), "a scope keeps its commands")
			sym.Assert(IsStr(ev(at+" call cmd").Value, "inner"), "a scope's commands are callable")
		}
	}
	Observe("r", r)
	sym.Reach("end")
}

// LocalFrames: recursive and nested calls each have their own arguments.
func LocalFrames() {
	scope := NewRoot(nil)
	kind := [...]string{"macro", "closure", "proc"}[sym.Choice("kind", 3)]
	n := sym.Choice("n", sym.Param("N", 4)+1)
	inner := sym.Choice("inner", 3)
	innerKind := [...]string{"macro", "closure", "proc"}[inner]
	var seen []core.Value
	Reg(scope, "note", func(args []core.Value, _ *hel.Scope) core.Result {
		seen = append(seen, args[1])
		return core.OK(args[1])
	})
	Run(scope, innerKind+" i {x} {note $x}")
	src := kind + " f {x} {note $x; if [$x > 0] {f [- $x 1]}; i [+ $x 100]; note $x}"
	Run(scope, src)
	r := Call(scope, S("f"), core.INT(int64(n)))
	sym.Assert(r.Code == core.ResultCode_OK && IsInt(r.Value, int64(n)), "the last use of the argument")
	var want []core.Value
	for i := n; i >= 0; i-- {
		want = append(want, core.INT(int64(i)))
	}
	for i := 0; i <= n; i++ {
		want = append(want, core.INT(int64(i+100)), core.INT(int64(i)))
	}
	sym.Assert(SameAll(seen, want), "every call sees its own arguments")
	sym.Assert(scope.ResolveVariable("x") == nil, "arguments do not leak")
	Observe("r", r)
	sym.Reach("end")
}

// Hierarchy: a command called from any scope is the one that the nearest scope
// defines at the time of the call.
func Hierarchy() {
	scopes := make([]*hel.Scope, 3)
	root := NewRoot(nil)
	kinds := [...]string{"namespace", "scope", "ensemble"}
	body := func(level int) (string, string) {
		switch k := kinds[sym.Choice("kind", sym.Param("KINDS", 3))]; k {
		case "ensemble":
			return k + " s" + letter(level) + " () {grab " + letter(level) + "; ", "}"
		default:
			return k + " s" + letter(level) + " {grab " + letter(level) + "; ", "}"
		}
	}
	a, z := body(1)
	b, y := body(2)
	Reg(root, "grab", func(args []core.Value, s *hel.Scope) core.Result {
		if IsStr(args[1], "1") {
			scopes[1] = s
		} else {
			scopes[2] = s
		}
		return core.OK(core.NIL)
	})
	scopes[0] = root
	sym.Assert(Run(root, a+b+"idem done"+y+z).Code == core.ResultCode_OK, "harness: scopes")
	defs := [3]int{-1, -1, -1}
	k := sym.Param("K", 4)
	for step := 0; step < k; step++ {
		level := sym.Choice("level", 3)
		s := scopes[level]
		op := 1
		if step < k-1 {
			op = sym.Choice("op", 2)
		}
		switch op {
		case 0:
			how := [...]string{"macro cmd {} {idem #}", "alias cmd (idem #)", "proc cmd {} {idem #}"}[sym.Choice("how", sym.Param("HOW", 2))]
			sym.Assert(Run(s, fill(how, letter(step), "")).Code == core.ResultCode_OK, "definitions work")
			defs[level] = step
		default:
			r := Run(s, [...]string{"cmd", "eval {idem [cmd]}", "macro m {} {cmd}; m"}[sym.Choice("call", sym.Param("CALLS", 2))])
			want := -1
			for l := level; l >= 0 && want < 0; l-- {
				want = defs[l]
			}
			if want < 0 {
				assertError(r, "undefined commands")
			} else {
				sym.Assert(r.Code == core.ResultCode_OK && IsStr(r.Value, letter(want)), "the nearest definition at the time of the call")
			}
		}
	}
	sym.Reach("end")
}

// shapes generates nested shapes and values that fit them or not.
type shapes struct {
	nodes int // nodes left
	next  int // names used
	wrong int // node whose value does not fit, -1 for none
	at    int // nodes seen
	fits  bool
}

func (g *shapes) leaf() (core.Value, core.Value) {
	n := g.next
	g.next++
	v := S("v" + letter(n))
	return S("n" + letter(n)), v
}

func (g *shapes) tree(depth int) (core.Value, core.Value) {
	g.nodes--
	wrong := g.at == g.wrong
	g.at++
	k := 1
	if depth > 0 && g.nodes >= 0 {
		k = 2 + min(g.nodes, 3)
	}
	n := sym.Choice("width", k) - 1
	if n < 0 {
		shape, value := g.leaf()
		if wrong {
			value = T(value, T())
		}
		return shape, value
	}
	g.nodes -= n
	var ss, vs []core.Value
	for i := 0; i < n; i++ {
		g.nodes++
		s, v := g.tree(depth - 1)
		ss = append(ss, s)
		vs = append(vs, v)
	}
	if wrong {
		switch sym.Choice("wrong", 3) {
		case 0:
			vs = append(vs, S("more"))
		case 1:
			if n == 0 {
				return T(ss...), S("none")
			}
			vs = vs[:n-1]
			g.fits = false
		case 2:
			g.fits = false
			return T(ss...), L(vs...)
		}
	}
	return T(ss...), T(vs...)
}

// NestedShapes: let, set, unset and foreach match shapes of any nesting with
// values as a whole: when one name cannot be bound or a part does not fit,
// nothing is.
func NestedShapes() {
	scope := NewRoot(nil)
	limit := sym.Param("NODES", 6)
	g := &shapes{nodes: limit, fits: true, wrong: sym.Choice("mismatch", limit+1) - 1}
	op := sym.Choice("op", 4)
	if op == 2 {
		sym.Assume(g.wrong < 0) // no value
	}
	sh, v := g.tree(sym.Param("DEPTH", 3))
	sym.Assume(g.wrong < g.at)
	var bs []binding
	ok := g.fits && shapeFits(sh, v)
	bound, fits := pairs(sh, v, nil)
	sym.Assume(ok == fits)
	ns, _ := names(sh, nil)
	// one name is already a constant or a variable, or every other name is a variable
	special, kind := "", 0
	if len(ns) > 0 {
		special = ns[sym.Choice("special", len(ns))]
		kind = sym.Choice("kind", 3)
	}
	for _, n := range ns {
		switch {
		case n == special && kind == 1:
			scope.SetNamedConstant(n, S("old"))
			bs = append(bs, binding{n, 1, S("old")})
		case n == special && kind == 2, op == 2 && n != special:
			scope.SetNamedVariable(n, S("old"))
			bs = append(bs, binding{n, 2, S("old")})
		}
	}
	e := env{bs: bs}
	var r core.Result
	good := fits
	switch op {
	case 0, 1:
		r = Call(scope, S([...]string{"let", "set"}[op]), sh, v)
		good = good && kind != 1 && (op == 1 || kind != 2)
		if good {
			sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, v), "assignments return the value")
			for _, b := range bound {
				e.put(b.name, op+1, b.value)
			}
		}
	case 2:
		r = Call(scope, S("unset"), sh)
		good = special == "" || kind == 2
		if good {
			sym.Assert(r.Code == core.ResultCode_OK && IsNil(r.Value), "unset result")
			e.bs = nil
		}
	case 3:
		var seen []core.Value
		calls := 0
		Reg(scope, "note", func(args []core.Value, s *hel.Scope) core.Result {
			calls++
			for _, n := range ns {
				seen = append(seen, s.ResolveVariable(n))
			}
			return core.OK(S("done"))
		})
		r = Call(scope, S("list"), L(v), S("foreach"), sh, Script("note"))
		if good {
			sym.Assert(r.Code == core.ResultCode_OK && IsStr(r.Value, "done") && calls == 1, "the body runs once")
			for i, b := range bound {
				sym.Assert(seen[i] != nil && Same(seen[i], b.value), "each name has its part of the element")
			}
		} else {
			sym.Assert(calls == 0, "the body does not run")
		}
	}
	if !good {
		assertError(r, "shapes that do not fit or bind are errors")
		sym.Reach("error")
	} else {
		sym.Reach("ok")
	}
	for _, n := range ns {
		got := scope.ResolveVariable(n)
		if i := e.find(n); i >= 0 {
			sym.Assert(got != nil && Same(got, e.bs[i].value), "names have their value")
		} else {
			sym.Assert(got == nil, "other names stay undefined")
		}
	}
	Observe("r", r)
}

func shapeFits(shape, value core.Value) bool {
	_, ok := pairs(shape, value, nil)
	return ok
}

// RepeatedCalls: what a call of a procedure defines is gone in every other
// call, in whatever way it ended; what a macro or closure defines stays in its
// caller's or its own enclosing scope; arguments not given are not bound.
func RepeatedCalls() {
	scope := NewRoot(nil)
	kind := sym.Choice("kind", 4)
	def := [...]string{"proc f", "macro f", "closure f", "ensemble e {} {proc f"}[kind]
	Run(scope, "macro cmd {} {idem outer}")
	what := sym.Choice("what", 6)
	defs := [...]string{"set w inner", "let k inner", "macro cmd {} {idem inner}", "alias cmd (idem inner)", "f2 given", "idem none"}[what]
	end := sym.Choice("end", 6)
	ends := [...]string{"idem x", "return x", "error x", "yield x", "break", "pass"}[end]
	src := def + " {n ?o} {if [$n == 1] {" + defs + "; " + ends + "} else {idem ([get w none] [get k none] [exists o] [cmd] [exists n])}}"
	call := "f"
	if kind == 3 {
		src += "}"
		call = "e f"
	}
	r := Run(scope, src)
	sym.Assert(r.Code == core.ResultCode_OK, "commands can be defined")
	Run(scope, "macro f2 {x} {"+call+" 2 $x}")
	first := Proc(scope, call+" 1 given")
	rounds := 1 + sym.Choice("rounds", 2)
	r = first.Run()
	if end == 3 {
		sym.Assert(r.Code == core.ResultCode_YIELD && IsStr(r.Value, "x"), "the first call yields")
	}
	w, k, c := "none", "none", "outer"
	if kind == 1 || kind == 2 {
		switch what {
		case 0:
			w = "inner"
		case 1:
			k = "inner"
		case 2, 3:
			c = "inner"
		}
	}
	want := T(S(w), S(k), core.FALSE, S(c), core.TRUE)
	for i := 0; i < rounds; i++ {
		r = Run(scope, call+" 2")
		sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, want), "a later call sees what its kind of command allows")
		if end == 3 && i == 0 {
			first.Run()
		}
	}
	r = Run(scope, "idem ([get w none] [get k none] [exists o] [cmd] [exists n])")
	want = T(S(w), S(k), core.FALSE, S(c), core.FALSE)
	sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, want), "so does the caller")
	Observe("r", r)
	sym.Reach("end")
}
