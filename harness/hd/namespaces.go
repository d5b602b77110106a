package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- namespaces, ensembles and scopes as containers of commands ----

// defs maps command names to the number of their definition.
type defs map[string]int

// ContainerHistories: any history of definitions, calls and imports through a
// namespace, ensemble or scope follows one table of commands per container.
func ContainerHistories() {
	scope := NewRoot(nil)
	var log []core.Value
	Reg(scope, "act", func(args []core.Value, _ *hel.Scope) core.Result {
		log = append(log, args[1])
		return core.OK(args[1])
	})
	kind := sym.Choice("kind", 3)
	const inner = "macro m {} {f}; closure c {} {f}; proc p {} {f}; set x 0"
	src := [...]string{"namespace n {", "ensemble n {} {", "scope n {"}[kind] + inner + "}"
	sym.Assert(Run(scope, src).Code == core.ResultCode_OK, "harness: container")
	eval := [...]string{"[n] eval ", "[n] eval ", "n eval "}[kind]
	call := [...]string{"[n] call ", "[n] call ", "n call "}[kind]
	root := defs{}
	in := defs{}
	// -1: m, -2: c, -3: p, the commands that call f
	in["m"], in["c"], in["p"] = -1, -2, -3
	x := 0
	// run is the reference of calling definition d with the commands of root
	// (false) or the container (true) first.
	var run func(d int, local bool) (int, bool)
	lookup := func(name string, local bool) (int, bool) {
		if local {
			if d, ok := in[name]; ok {
				return d, true
			}
		}
		d, ok := root[name]
		return d, ok
	}
	run = func(d int, local bool) (int, bool) {
		switch d {
		case -1:
		case -2, -3:
			local = true
		default:
			return d, true
		}
		d, ok := lookup("f", local)
		if !ok || d < 0 {
			return 0, false
		}
		return d, true
	}
	names := []string{"f", "g"}
	// define is a definition of n of any kind.
	defKind := sym.Choice("definition", sym.Param("DEFS", 2))
	define := func(n, num string) string {
		return [...]string{"macro " + n + " {} {act " + num + "}", "alias " + n + " (act " + num + ")", "closure " + n + " {} {act " + num + "}", "proc " + n + " {} {act " + num + "}"}[defKind]
	}
	if sym.Param("PRE", 0) > 0 {
		// any of them may be defined before
		for i, n := range names {
			if sym.Bool("inside") {
				in[n] = 6 + i
				sym.Assert(Run(scope, eval+"{"+define(n, "d"+letter(6+i))+"}").Code == core.ResultCode_OK, "harness: definition")
			}
			if sym.Bool("outside") {
				root[n] = 8 + i
				sym.Assert(Run(scope, define(n, "d"+letter(8+i))).Code == core.ResultCode_OK, "harness: definition")
			}
		}
	}
	called := []string{"f", "g", "m", "c", "p"}
	k := sym.Param("K", 4)
	for i := 1; i <= k; i++ {
		num := "d" + letter(i)
		log = nil
		var got core.Result
		want, ok, calls := 0, true, true
		switch sym.Choice("op", 9) {
		case 0:
			n := names[sym.Choice("name", 2)]
			got = Run(scope, eval+"{"+define(n, num)+"}")
			in[n] = i
			calls = false
		case 1:
			n := names[sym.Choice("name", 2)]
			got = Run(scope, define(n, num))
			root[n] = i
			calls = false
		case 2:
			if kind == 2 {
				return
			}
			n := called[sym.Choice("name", 5)]
			got = Run(scope, "n "+n)
			want, ok = in[n]
			if ok {
				want, ok = run(want, kind == 0)
			}
		case 3:
			n := called[sym.Choice("name", 5)]
			got = Run(scope, call+n)
			want, ok = in[n]
			if ok {
				want, ok = run(want, kind != 1)
			}
		case 4:
			if kind != 0 {
				return
			}
			from := called[sym.Choice("name", 5)]
			to := names[sym.Choice("to", 2)]
			if from == to {
				got = Run(scope, "[n] import "+from)
			} else {
				got = Run(scope, "[n] import "+from+" "+to)
			}
			d, found := in[from]
			if found {
				root[to] = d
				// importing f's callers as f would recurse forever
				if d < 0 && to == "f" {
					return
				}
			}
			sym.Assert((got.Code == core.ResultCode_OK) == found, "what the namespace defines can be imported")
			continue
		case 5:
			n := called[sym.Choice("name", 2)]
			got = Run(scope, n)
			want, ok = root[n]
			if ok {
				want, ok = run(want, false)
			}
		case 6:
			n := called[sym.Choice("name", 5)]
			got = Run(scope, eval+"{"+n+"}")
			want, ok = lookup(n, true)
			if ok {
				want, ok = run(want, true)
			}
		case 7:
			got = Run(scope, eval+"{set x "+letter(i)+"}")
			x = i
			calls = false
		case 8:
			if kind == 2 {
				return
			}
			if sym.Bool("alias") {
				// a command through the container's value
				got = Run(scope, "let n"+num+" [n]; [$n"+num+"] eval {f}")
				want, ok = lookup("f", true)
			} else {
				got = Run(scope, "n subcommands")
				l, isList := IsList(got.Value)
				sym.Assert(isList && len(l) == len(in)+1, "the subcommands are those defined")
				for name := range in {
					found := false
					for _, v := range l {
						found = found || IsStr(v, name)
					}
					sym.Assert(found, "the subcommands are those defined")
				}
				continue
			}
		}
		if calls {
			sym.Assert((got.Code == core.ResultCode_OK) == ok, "a command runs exactly when its container or scope defines it")
			if ok {
				sym.Assert(len(log) == 1 && IsStr(log[0], "d"+letter(want)), "the definition in force runs")
				sym.Assert(IsStr(got.Value, "d"+letter(want)), "its result is the result")
			} else {
				sym.Assert(len(log) == 0, "nothing else runs")
			}
		} else {
			sym.Assert(got.Code == core.ResultCode_OK, "definitions succeed")
		}
		v := Run(scope, eval+"{get x}")
		sym.Assert(IsStr(v.Value, letter(x)), "variables of the container are its own")
		sym.Assert(scope.ResolveVariable("x") == nil, "variables of the container are its own")
		if kind == 0 {
			v = Run(scope, "idem $[n](x)")
			sym.Assert(IsStr(v.Value, letter(x)), "variables of a namespace are its keys")
		}
	}
	// every name gives what it stands for in the end
	for i := 0; i < 3; i++ {
		n := [...]string{"f", "g", "m"}[i]
		log = nil
		got := Run(scope, n)
		want, ok := root[n]
		if ok {
			want, ok = run(want, false)
		}
		sym.Assert((got.Code == core.ResultCode_OK) == ok && (!ok || len(log) == 1 && IsStr(log[0], "d"+letter(want))), "outside, names stand for what was defined or imported there")
		log = nil
		got = Run(scope, eval+"{"+n+"}")
		want, ok = lookup(n, true)
		if ok {
			want, ok = run(want, true)
		}
		sym.Assert((got.Code == core.ResultCode_OK) == ok && (!ok || len(log) == 1 && IsStr(log[0], "d"+letter(want))), "inside, names stand for what was defined there")
	}
	sym.Reach("end")
}

// ContainerArguments: a command called through a container or imported from it
// is given the arguments of the call, whatever they are, and replaces what the
// name stood for.
func ContainerArguments() {
	scope := NewRoot(nil)
	kind := sym.Choice("kind", 4)
	spec := sym.Choice("spec", 3)
	def := [...]string{"macro f ", "closure f ", "proc f "}[sym.Choice("definition", 3)] + [...]string{"{*r} {idem ($r)}", "{a ?b *r} {idem ($a [get b none] $r)}", "{*r z} {idem ($r $z)}"}[spec]
	how := sym.Choice("how", 3)
	call := ""
	pre := ""
	src := [...]string{"namespace n {", "ensemble n {} {", "scope n {", "module n {export f; "}[kind] + def + "}"
	switch kind {
	case 0, 1:
		call = [...]string{"n f", "[n] call f", "[n] import f x; x"}[how]
		sym.Assume(kind == 0 || how != 2)
	case 2:
		sym.Assume(how < 2)
		call = [...]string{"n call f", "[n] call f"}[how]
	case 3:
		sym.Assume(how > 0)
		call = [...]string{"", "n import f; f", "n import f x; x"}[how]
	}
	if sym.Bool("before") {
		// the names already stand for something
		pre = "macro x {*r} {idem wrong}; macro f {*r} {idem wrong}; "
	}
	sym.Assert(Run(scope, pre+src).Code == core.ResultCode_OK, "harness: container")
	m := sym.Choice("m", sym.Param("M", 3)+1)
	vs := make([]core.Value, m)
	for i := range vs {
		vs[i] = S("v" + letter(i))
	}
	oddOne("value", vs)
	for i, v := range vs {
		Def(scope, "v"+letter(i), v)
		call += " $v" + letter(i)
	}
	if sym.Bool("again") {
		Run(scope, call)
	}
	got := Run(scope, call)
	rest := func(i, j int) core.Value { return T(append([]core.Value{}, vs[i:j]...)...) }
	switch {
	case spec == 0:
		sym.Assert(got.Code == core.ResultCode_OK && Same(got.Value, T(rest(0, m))), "a command is given the arguments of the call")
	case m == 0:
		assertError(got, "missing arguments are errors")
	case spec == 1:
		b := core.Value(S("none"))
		if m > 1 {
			b = vs[1]
		}
		sym.Assert(got.Code == core.ResultCode_OK && Same(got.Value, T(vs[0], b, rest(min(2, m), m))), "a command is given the arguments of the call")
	default:
		sym.Assert(got.Code == core.ResultCode_OK && Same(got.Value, T(rest(0, m-1), vs[m-1])), "a command is given the arguments of the call")
	}
	Observe("r", got)
	sym.Reach("end")
}
