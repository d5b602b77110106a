package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// param models one argument of an argspec.
type param struct {
	name  string
	kind  int // 0 required, 1 optional, 2 optional with default, 3 remainder
	opt   int // 0 positional, 1 option, 2 flag
	on    string
	guard bool
	dflt  core.Value
}

func (p param) required() bool { return p.kind == 0 }

// spec gives the argspec words of a parameter.
func (p param) spec(form int) []core.Value {
	var out []core.Value
	switch p.opt {
	case 1:
		out = append(out, S(p.on))
	case 2:
		out = append(out, S("?"+p.on))
	}
	n := p.name
	if p.kind == 1 || p.kind == 2 {
		n = "?" + n
	}
	if p.kind == 3 {
		n = "*" + n
	}
	var v core.Value = S(n)
	switch {
	case p.guard && p.kind == 2:
		v = T(S("guard"), S(n), p.dflt)
	case p.guard:
		v = T(S("guard"), S(n))
	case p.kind == 2:
		v = T(S(n), p.dflt)
	}
	if t, ok := v.(core.TupleValue); ok && form == 1 {
		v = L(t.Values...)
	}
	return append(out, v)
}

// outcome of binding values to parameters.
type bindingResult struct {
	ok   bool
	vals []core.Value // nil: unset
}

// bindPositional is the reference for argspecs without options: required
// arguments first, then optional ones left to right, then the remainder.
func bindPositional(ps []param, vs []core.Value) bindingResult {
	nreq, nopt, rem := 0, 0, false
	for _, p := range ps {
		switch p.kind {
		case 0:
			nreq++
		case 3:
			rem = true
		default:
			nopt++
		}
	}
	n := len(vs)
	if n < nreq || !rem && n > nreq+nopt {
		return bindingResult{}
	}
	extra := n - nreq
	give := min(extra, nopt) // optionals that get a value
	rest := extra - give     // values of the remainder
	out := make([]core.Value, len(ps))
	at := 0
	for i, p := range ps {
		switch p.kind {
		case 0:
			out[i] = vs[at]
			at++
		case 3:
			out[i] = T(append([]core.Value{}, vs[at:at+rest]...)...)
			at += rest
		default:
			if give > 0 {
				give--
				out[i] = vs[at]
				at++
			} else if p.kind == 2 {
				out[i] = p.dflt
			}
		}
	}
	return bindingResult{true, out}
}

// guardCmd wraps its argument; it rejects "bad".
func regGuard(scope *hel.Scope) {
	Reg(scope, "guard", func(args []core.Value, _ *hel.Scope) core.Result {
		if len(args) != 2 {
			return core.ERROR("guard arity")
		}
		if IsStr(args[1], "bad") {
			return core.ERROR("rejected")
		}
		return core.OK(T(S("guarded"), args[1]))
	})
}

// apply guards to bound values; ok is false if one rejects.
func guarded(ps []param, b bindingResult) bindingResult {
	if !b.ok {
		return b
	}
	for i, p := range ps {
		if !p.guard || b.vals[i] == nil {
			continue
		}
		if IsStr(b.vals[i], "bad") {
			return bindingResult{}
		}
		b.vals[i] = T(S("guarded"), b.vals[i])
	}
	return b
}

func setList(name string, vs []core.Value) core.Value { return sequence2(name, vs) }

// ArgspecPositional: argspec set, macros, closures and procs bind positional
// arguments alike.
func ArgspecPositional() {
	scope := NewRoot(nil)
	regGuard(scope)
	n := sym.Choice("n", sym.Param("N", 3)+1)
	ps := make([]param, n)
	rem := false
	var spec []core.Value
	for i := range ps {
		ps[i].name = string(rune('a' + i))
		if rem {
			ps[i].kind = sym.Choice("kind", 3)
		} else {
			ps[i].kind = sym.Choice("kind", 4)
		}
		rem = rem || ps[i].kind == 3
		if ps[i].kind != 3 {
			ps[i].guard = sym.Param("G", 1) > 0 && sym.Bool("guard")
		}
		if ps[i].kind == 2 {
			ps[i].dflt = S("d" + ps[i].name)
		}
		spec = append(spec, ps[i].spec(0)...)
	}
	m := sym.Choice("m", sym.Param("M", 4)+1)
	vs := make([]core.Value, m)
	for i := range vs {
		vs[i] = S("v" + string(rune('0'+i)))
		if sym.Param("G", 1) > 0 && i == m-1 && sym.Bool("bad") {
			vs[i] = S("bad")
		}
	}
	if sym.Param("ODD", 0) > 0 && sym.Bool("odddflt") {
		// one default is of another kind
		for i := range ps {
			if ps[i].kind == 2 {
				ps[i].dflt = odd("dflt", ps[i].dflt)
				break
			}
		}
		spec = nil
		for i := range ps {
			spec = append(spec, ps[i].spec(0)...)
		}
	} else {
		oddOne("value", vs)
	}
	want := guarded(ps, bindPositional(ps, vs))
	get := ""
	for _, p := range ps {
		get += " [get " + p.name + " unset]"
	}
	how := sym.Choice("how", 4)
	var r core.Result
	constant := -1
	switch how {
	case 0:
		if c := sym.Choice("constant", n+1); c < n {
			// the name of an argument is a constant: it cannot be set
			constant = c
			Def(scope, ps[c].name, S("const"))
			if want.ok {
				if want.vals[c] != nil {
					want.ok = false
				} else {
					want.vals[c] = S("const")
				}
			}
		}
		r = Call(scope, S("argspec"), L(spec...), S("set"), setList("values", vs))
		if r.Code == core.ResultCode_OK {
			sym.Assert(IsNil(r.Value), "argspec set gives nil")
			r = Run(scope, "idem ("+get+")")
		}
	default:
		cmd := [...]string{"", "macro", "closure", "proc"}[how]
		d := Call(scope, S(cmd), S("f"), L(spec...), Script("idem ("+get+")"))
		sym.Assert(d.Code == core.ResultCode_OK, "command definition")
		r = Call(scope, append([]core.Value{S("f")}, vs...)...)
	}
	if !want.ok {
		assertError(r, "invalid arguments are errors")
		for i, p := range ps {
			sym.Assert(i == constant || scope.ResolveVariable(p.name) == nil, "a failed call sets nothing")
		}
		if constant >= 0 {
			sym.Assert(IsStr(scope.ResolveVariable(ps[constant].name), "const"), "constants never change")
		}
	} else if assertOK(r, "valid arguments") {
		for i := range want.vals {
			if want.vals[i] == nil {
				want.vals[i] = S("unset")
			}
		}
		sym.Assert(Same(r.Value, T(want.vals...)), "bound arguments")
	}
	Observe("r", r)
	sym.Reach("end")
}

// bindOptions is the reference for argspecs with options: positional arguments
// and groups of options alternate in order; within a group options come in any
// order, and an optional "--" ends it.
func bindOptions(ps []param, vs []core.Value) bindingResult {
	out := make([]core.Value, len(ps))
	set := make([]bool, len(ps))
	need := 0 // values needed by required parameters not yet bound
	nopt := 0
	byName := map[string]int{}
	for i, p := range ps {
		if p.opt == 0 {
			switch p.kind {
			case 0:
				need++
			case 1, 2:
				nopt++
			}
			continue
		}
		byName[p.on] = i
		if p.kind == 0 {
			need += 2
		}
	}
	if len(vs) < need {
		return bindingResult{}
	}
	at := 0
	lo := 0
	for lo < len(ps) && at < len(vs) {
		hi := lo
		for hi < len(ps) && ps[hi].opt == 0 {
			hi++
		}
		for ; lo < hi && at < len(vs); lo++ {
			left := len(vs) - at
			switch ps[lo].kind {
			case 0:
				out[lo], set[lo] = vs[at], true
				at++
				need--
			case 1, 2:
				if left > need {
					out[lo], set[lo] = vs[at], true
					at++
					nopt--
				}
			case 3:
				if left > need+nopt {
					k := left - need - nopt
					out[lo], set[lo] = T(append([]core.Value{}, vs[at:at+k]...)...), true
					at += k
				}
			}
		}
		if at >= len(vs) {
			break
		}
		lo = hi
		for hi < len(ps) && ps[hi].opt != 0 {
			hi++
		}
		missing := 0
		for i := lo; i < hi; i++ {
			if ps[i].kind == 0 {
				missing++
			}
		}
		for k := lo; k < hi && at < len(vs); k++ {
			s, isS := vs[at].(core.StringValue)
			i, known := -1, false
			if isS && s.Value != "--" {
				i, known = byName[s.Value]
			}
			if !known {
				if missing > 0 {
					return bindingResult{}
				}
				break
			}
			if i < lo || i >= hi || set[i] {
				return bindingResult{}
			}
			set[i] = true
			at++
			if ps[i].opt == 2 {
				out[i] = core.TRUE
				continue
			}
			if at >= len(vs) {
				return bindingResult{}
			}
			out[i] = vs[at]
			at++
			if ps[i].kind == 0 {
				missing--
				need -= 2
			}
		}
		if at < len(vs) && IsStr(vs[at], "--") {
			at++
		}
		lo = hi
	}
	if at < len(vs) {
		return bindingResult{}
	}
	for i, p := range ps {
		if set[i] {
			continue
		}
		switch {
		case p.kind == 0:
			return bindingResult{}
		case p.kind == 3:
			out[i] = T()
		case p.opt == 2:
			out[i] = core.FALSE
		case p.kind == 2:
			out[i] = p.dflt
		}
	}
	return bindingResult{true, out}
}

// ArgspecOptions: option binding.
func ArgspecOptions() {
	scope := NewRoot(nil)
	n := 1 + sym.Choice("n", sym.Param("N", 3))
	ps := make([]param, n)
	var spec []core.Value
	rem, any := false, false
	for i := range ps {
		p := &ps[i]
		p.name = string(rune('a' + i))
		p.on = "-" + p.name
		if i == 0 && sym.Param("DASH", 0) > 0 {
			p.name = "a-a"
		}
		kinds := 8
		if rem {
			kinds = 3
		}
		k := 0
		if sym.Param("KINDS", 0) > 0 {
			k = [...]int{0, 4, 6, 1}[sym.Choice("kind", sym.Param("KINDS", 0))]
		} else {
			k = sym.Choice("kind", kinds)
		}
		switch k {
		case 0, 1, 2:
			p.kind = k
		case 3:
			p.kind = 3
			rem = true
		case 4:
			p.opt, p.kind = 1, 0
		case 5:
			p.opt, p.kind = 1, 1
		case 6:
			p.opt, p.kind = 2, 1
		case 7:
			p.opt, p.kind = 1, 2
		}
		any = any || p.opt != 0
		if p.kind == 2 {
			p.dflt = S("d" + p.name)
		}
		spec = append(spec, p.spec(0)...)
	}
	sym.Assume(any)
	m := sym.Choice("m", sym.Param("M", 4)+1)
	vs := make([]core.Value, m)
	for i := range vs {
		switch sym.Choice("v", 5) {
		case 0:
			vs[i] = S("v" + string(rune('0'+i)))
		case 1:
			vs[i] = S("-a")
		case 2:
			vs[i] = S("-b")
		case 3:
			vs[i] = S("--")
		case 4:
			vs[i] = S("-c")
		}
	}
	if sym.Param("ODD", 0) > 0 && sym.Bool("odddflt") {
		for i := range ps {
			if ps[i].kind == 2 {
				ps[i].dflt = odd("dflt", ps[i].dflt)
				break
			}
		}
		spec = nil
		for i := range ps {
			spec = append(spec, ps[i].spec(0)...)
		}
	} else {
		oddOne("value", vs)
	}
	want := bindOptions(ps, vs)
	get := ""
	for _, p := range ps {
		get += " [get " + p.name + " unset]"
	}
	var r core.Result
	if sym.Bool("call") {
		d := Call(scope, S("closure"), S("f"), L(spec...), Script("idem ("+get+")"))
		sym.Assert(d.Code == core.ResultCode_OK, "command definition")
		r = Call(scope, append([]core.Value{S("f")}, vs...)...)
	} else {
		r = Call(scope, S("argspec"), L(spec...), S("set"), L(vs...))
		if r.Code == core.ResultCode_OK {
			r = Run(scope, "idem ("+get+")")
		}
	}
	if !want.ok {
		assertError(r, "invalid options are errors")
		for _, p := range ps {
			sym.Assert(scope.ResolveVariable(p.name) == nil, "a failed call sets nothing")
		}
	} else if assertOK(r, "valid options") {
		for i := range want.vals {
			if want.vals[i] == nil {
				want.vals[i] = S("unset")
			}
		}
		sym.Assert(Same(r.Value, T(want.vals...)), "bound options")
	}
	Observe("r", r)
	sym.Reach("end")
}

// specWord is an element of an arbitrary argument specification.
func specWord(name string, deep bool) core.Value {
	c := 11
	if deep {
		c = 15
	}
	switch sym.Choice(name, c) {
	case 0:
		return S("a")
	case 1:
		return S("?b")
	case 2:
		return S("*c")
	case 3:
		return S("*")
	case 4:
		return S("?")
	case 5:
		return S("")
	case 6:
		return S("-o")
	case 7:
		return S("?-p")
	case 8:
		return S("--")
	case 9:
		return core.NIL
	case 10:
		return core.INT(3)
	case 13:
		return S("f-g")
	case 11:
		return T(words3(name)...)
	case 12:
		return L(words3(name)...)
	}
	return Script("x y")
}

func words3(name string) []core.Value {
	n := sym.Choice(name+"n", 5)
	out := make([]core.Value, n)
	for i := range out {
		if i < 2 {
			out[i] = specWord(name+"w", false)
		} else {
			out[i] = S("?z")
		}
	}
	return out
}

// ArgspecTotality: any specification is either rejected or usable: its usage
// and any binding of it give a result.
func ArgspecTotality() {
	scope := NewRoot(nil)
	Reg(scope, "b", func(args []core.Value, _ *hel.Scope) core.Result { return core.OK(args[len(args)-1]) })
	n := sym.Choice("n", sym.Param("N", 2)+1)
	spec := make([]core.Value, n)
	deepAt := sym.Choice("deep", n+1)
	for i := range spec {
		spec[i] = specWord("w", i == deepAt)
	}
	r := Call(scope, S("argspec"), sequence2("seq", spec))
	sym.Assert(r.Code == core.ResultCode_OK || r.Code == core.ResultCode_ERROR, "an argspec or an error")
	if r.Code != core.ResultCode_OK {
		sym.Reach("rejected")
		return
	}
	a, ok := r.Value.(hel.ArgspecValue)
	sym.Assert(ok, "argspec gives an argspec")
	if !ok {
		return
	}
	u := Call(scope, S("argspec"), r.Value, S("usage"))
	_, isS := u.Value.(core.StringValue)
	sym.Assert(u.Code == core.ResultCode_OK && isS, "usage of an argspec")
	m := sym.Choice("m", sym.Param("M", 3)+1)
	vs := make([]core.Value, m)
	for i := range vs {
		vs[i] = [...]core.Value{S("v"), S("-o"), S("-p")}[sym.Choice("v", 3)]
	}
	s := Call(scope, S("argspec"), r.Value, S("set"), T(vs...))
	sym.Assert(s.Code == core.ResultCode_OK || s.Code == core.ResultCode_ERROR, "binding gives a result")
	if s.Code == core.ResultCode_OK {
		// every value goes somewhere: distinct required arguments are all set
		for _, arg := range a.Argspec.Args {
			if arg.Type == hel.ArgumentType_REQUIRED {
				sym.Assert(scope.ResolveVariable(arg.Name) != nil, "required arguments are set")
			}
		}
	}
	Observe("s", s)
	sym.Reach("accepted")
}

// ArgumentLifetime: arguments keep their values whatever runs later.
func ArgumentLifetime() {
	scope := NewRoot(nil)
	cmd := [...]string{"macro", "closure", "proc"}[sym.Choice("cmd", 3)]
	spec := [...]string{"*r", "a *r", "?a *r", "?-f? ?f *r", "-o o *r", "?-f ?f *r z"}[sym.Choice("spec", 6)]
	sym.Assume(Run(scope, cmd+" f {"+spec+"} {set keep $r; idem $r}").Code == core.ResultCode_OK)
	if cmd == "proc" {
		Run(scope, cmd+" f {"+spec+"} {idem $r}")
	}
	m := sym.Choice("m", sym.Param("M", 3)+1)
	vs := tags("v", m)
	line := "f"
	lead := []core.Value{}
	if spec == "-o o *r" {
		line += " -o val"
		lead = append(lead, S("-o"), S("val"))
	}
	for _, v := range vs {
		line += " " + v.(core.StringValue).Value
		lead = append(lead, v)
	}
	after := [...]string{"idem x1 x2 x3 x4", "list (x1 x2 x3 x4)", "f y1 y2 y3 y4", "idem [idem z1] [idem z2] [list (z3 z4) length]"}[sym.Choice("after", 4)]
	r := Run(scope, "set res ["+line+"]; catch {"+after+"}; idem [idem x][idem y]; idem _ $res")
	_ = r
	res := scope.ResolveVariable("res")
	alone := Run(NewRootWith(cmd+" f {"+spec+"} {idem $r}"), line)
	if alone.Code == core.ResultCode_OK {
		sym.Assert(res != nil && Same(res, alone.Value), "results keep their values")
		t, ok := IsTuple(alone.Value)
		sym.Assert(ok, "a remainder is a tuple")
		// the remainder is a contiguous run of the given values
		all := lead
		found := false
		for i := 0; i+len(t) <= len(all); i++ {
			found = found || SameAll(all[i:i+len(t)], t)
		}
		sym.Assert(found, "the remainder holds the given values")
	} else {
		sym.Assert(res == nil, "failed calls set nothing")
	}
	Observe("alone", alone)
	sym.Reach("end")
}

// NewRootWith is a root scope with a prelude.
func NewRootWith(src string) *hel.Scope {
	scope := NewRoot(nil)
	if r := Run(scope, src); r.Code != core.ResultCode_OK {
		sym.Observe("prelude", ShowResult(r))
		sym.Fail("harness: prelude")
	}
	return scope
}

// DefaultScripts: default scripts run in the callee's scope of definition, for
// each call that needs them, in order, and their errors end the call.
func DefaultScripts() {
	scope := NewRoot(nil)
	var log []core.Value
	k := 0
	Reg(scope, "tick", func(args []core.Value, _ *hel.Scope) core.Result {
		v := T(args[1], core.INT(int64(len(log))))
		log = append(log, v)
		k++
		r := AnyResult("code", v)
		sym.Assume(r.Code != core.ResultCode_YIELD || sym.Param("Y", 0) > 0)
		return r
	})
	wrap := [...]string{"tick x", "eval {tick x}", "if true {tick x}", "idem [tick x]"}[sym.Choice("wrap", 4)]
	cmd := [...]string{"macro", "closure", "proc"}[sym.Choice("cmd", 3)]
	Run(scope, cmd+" f {(?a {"+wrap+"}) (?b {tick y}) c} {idem ($a $b $c)}")
	base := 0
	m := sym.Choice("m", 4)
	vs := tags("v", m)
	r := Call(scope, append([]core.Value{S("f")}, vs...)...)
	if r.Code == core.ResultCode_OK && sym.Bool("again") {
		// the next call runs its defaults again
		k, base = 0, len(log)
		r = Call(scope, append([]core.Value{S("f")}, vs...)...)
		Observe("again", r)
	}
	if m == 0 {
		assertError(r, "missing argument")
		sym.Assert(k == 0, "defaults do not run on arity errors")
		sym.Reach("end")
		return
	}
	// reference: m=1 both defaults, m=2 b's default, m=3 none
	want := 3 - m
	sym.Assert(k <= want, "defaults run only when needed")
	if r.Code == core.ResultCode_OK {
		sym.Assert(k == want, "each missing argument runs its default")
		v := func(s string, i int) core.Value { return T(S(s), core.INT(int64(base+i))) }
		exp := [][]core.Value{nil, {v("x", 0), v("y", 1), vs[0]}, {vs[0], v("y", 0)}, {}}[m]
		if m == 2 {
			exp = append(exp, vs[1])
		}
		if m == 3 {
			exp = vs
		}
		sym.Assert(Same(r.Value, T(exp...)), "default values")
	} else {
		sym.Assert(r.Code == core.ResultCode_ERROR, "failing defaults are errors")
		sym.Assert(k > 0, "only a default can fail")
	}
	Observe("r", r)
	sym.Reach("end")
}

// entry is one word of a specification in the model.
type entry struct {
	value   core.Value
	name    string   // argument name
	kind    int      // 0 required, 1 optional, 2 remainder
	options []string // option names
	flag    bool
	bad     bool
}

func anEntry() entry {
	n := [...]string{"a", "b"}[sym.Choice("name", 2)]
	switch sym.Choice("entry", sym.Param("ENTRIES", 25)) {
	case 0:
		return entry{value: S(n), name: n}
	case 1:
		return entry{value: S("?" + n), name: n, kind: 1}
	case 5:
		return entry{value: S("*" + n), name: n, kind: 2}
	case 2:
		return entry{value: S("-" + n), options: []string{"-" + n}}
	case 3:
		return entry{value: S("?-" + n), options: []string{"-" + n}, flag: true}
	case 4:
		return entry{value: T(S("-a"), S("-b")), options: []string{"-a", "-b"}}
	case 6:
		return entry{value: T(S("?-"+n), S("?-c")), options: []string{"-" + n, "-c"}, flag: true}
	case 7:
		return entry{value: T(S("-"+n), S("-"+n)), options: []string{"-" + n, "-" + n}}
	case 8:
		return entry{value: T(S("?"+n), S("d")), name: n, kind: 1}
	case 9:
		return entry{value: T(S("g"), S(n)), name: n}
	case 10:
		return entry{value: T(S("g"), S("?"+n)), name: n, kind: 1}
	case 11:
		return entry{value: T(S("g"), S("?"+n), S("d")), name: n, kind: 1}
	case 12:
		return entry{value: S("*"), name: "*", kind: 2}
	case 13:
		return entry{value: T(S(n)), name: n}
	case 14:
		return entry{value: T(S("?" + n)), name: n, kind: 1}
	case 15:
		return entry{value: T(S("-"+n), S("?-b")), bad: true}
	case 16:
		return entry{value: T(S("-"+n), S(n)), bad: true}
	case 17:
		return entry{value: T(S("g"), S(n), S("d")), bad: true}
	case 18:
		return entry{value: T(S("g"), S("?"+n), S("d"), S("x")), bad: true}
	case 19:
		return entry{value: [...]core.Value{S("--"), S("?--"), T(S("-"+n), S("--"))}[sym.Choice("end", 3)], bad: true}
	case 20:
		return entry{value: [...]core.Value{S(""), S("?"), T(), T(S("")), T(S("?")), T(S("g"), S("?")), T(S("g"), S("")), T(S("?"), S("d")), T(S("g"), S("?"), S("d"))}[sym.Choice("empty", 9)], bad: true}
	case 21:
		return entry{value: T(S("-"+n), T()), bad: true}
	case 22:
		return entry{value: T(T(S("g"), S("x")), S(n)), name: n}
	case 23:
		return entry{value: T(S("g"), T(S(n))), bad: true}
	}
	return entry{value: L(S("?-"+n), S("-"+n)), bad: true}
}

// SpecificationRules: a specification is accepted exactly when every word of
// it is well formed, option and argument names are distinct, each option has
// an argument and each flag an optional one, and there is one remainder at
// most, which no option follows.
func SpecificationRules() {
	scope := NewRoot(nil)
	n := sym.Choice("n", sym.Param("N", 3)+1)
	words := []core.Value{}
	ok := true
	var args []entry
	var pending *entry
	argnames := map[string]bool{}
	optnames := map[string]bool{}
	remainder := false
	for i := 0; i < n; i++ {
		e := anEntry()
		words = append(words, e.value)
		switch {
		case e.bad:
			ok = false
		case len(e.options) > 0:
			ok = ok && pending == nil && !remainder
			for _, o := range e.options {
				ok = ok && !optnames[o]
				optnames[o] = true
			}
			pending = &e
		default:
			ok = ok && !argnames[e.name]
			argnames[e.name] = true
			if pending != nil {
				ok = ok && e.kind != 2 && (!pending.flag || e.kind == 1)
				e.options, e.flag = pending.options, pending.flag
				pending = nil
			} else if e.kind == 2 {
				ok = ok && !remainder
				remainder = true
			}
			args = append(args, e)
		}
	}
	ok = ok && pending == nil
	r := Call(scope, S("argspec"), [...]core.Value{T(words...), L(words...)}[sym.Choice("list", 2)])
	if !ok {
		assertError(r, "ill-formed specifications are rejected")
		sym.Reach("rejected")
		return
	}
	a, isSpec := r.Value.(hel.ArgspecValue)
	sym.Assert(r.Code == core.ResultCode_OK && isSpec, "well-formed specifications are accepted")
	if !isSpec {
		return
	}
	sym.Assert(len(a.Argspec.Args) == len(args), "every argument is in the specification")
	for i, e := range args {
		if i >= len(a.Argspec.Args) {
			break
		}
		got := a.Argspec.Args[i]
		sym.Assert(got.Name == e.name && int(got.Type) == e.kind, "arguments keep their order, names and kinds")
		sym.Assert((got.Option != nil) == (len(e.options) > 0), "options belong to the argument after them")
		if got.Option != nil {
			sym.Assert((got.Option.Type == hel.OptionType_FLAG) == e.flag, "flags and options")
			sym.Assert(hel.OptionName(got.Option.Names) == hel.OptionName(e.options), "option names")
		}
	}
	sym.Reach("accepted")
}
