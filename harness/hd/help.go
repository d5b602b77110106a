package hd

import (
	"strings"

	"helena/core"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- help ----

// signature is an argument specification and its usage.
type signature struct {
	spec     string
	usages   []string
	required int
	max      int // -1: any number
}

var signatures = []signature{
	{"()", nil, 0, 0},
	{"(p)", []string{"p"}, 1, 1},
	{"(p q)", []string{"p", "q"}, 2, 2},
	{"(p ?q)", []string{"p", "?q?"}, 1, 2},
	{"(?p q)", []string{"?p?", "q"}, 1, 2},
	{"(p *r)", []string{"p", "?r ...?"}, 1, -1},
	{"(*)", []string{"?arg ...?"}, 0, -1},
	{"(-o p)", []string{"-o p"}, 2, 2},
	{"(q (-o --opt) ?p)", []string{"q", "?-o|--opt p?"}, 1, 3},
	{"(?-f ?p q)", []string{"?-f?", "q"}, 1, 2},
}

// wide are signatures of several arguments; the first ones are ensembles'.
var wide = []signature{
	{"(p q s)", []string{"p", "q", "s"}, 3, 3},
	{"(p q s t)", []string{"p", "q", "s", "t"}, 4, 4},
	{"(p q)", []string{"p", "q"}, 2, 2},
	{"(p q s t u)", []string{"p", "q", "s", "t", "u"}, 5, 5},
	{"(p q s ?t)", []string{"p", "q", "s", "?t?"}, 3, 4},
	{"(p ?q ?s t u)", []string{"p", "?q?", "?s?", "t", "u"}, 3, 5},
	{"(p q s *t)", []string{"p", "q", "s", "?t ...?"}, 3, -1},
	{"(p q *s t)", []string{"p", "q", "?s ...?", "t"}, 3, -1},
}

// cmdNode is a defined command with subcommands.
type cmdNode struct {
	kind string
	name string
	sig  signature
	subs []*cmdNode
}

// anyNode chooses a command of any kind.
func anyNode(name string, depth int) *cmdNode {
	n := &cmdNode{name: name}
	k := 3
	if depth > 0 {
		k = 5
	}
	if sym.Param("WIDE", 0) > 0 {
		// ensembles in ensembles, with several arguments
		if depth > 0 {
			n.kind = "ensemble"
			n.sig = wide[sym.Choice("required", 3)]
			n.subs = []*cmdNode{anyNode(name+"s", depth-1)}
		} else {
			n.kind = [...]string{"macro", "closure", "proc", "ensemble"}[sym.Choice("kind", 4)]
			if n.kind == "ensemble" {
				n.sig = wide[sym.Choice("required", 3)]
				n.subs = []*cmdNode{}
			} else {
				n.sig = wide[sym.Choice("sig", len(wide))]
			}
		}
		return n
	}
	n.kind = [...]string{"macro", "closure", "proc", "ensemble", "namespace"}[sym.Choice("kind", k)]
	switch n.kind {
	case "ensemble":
		n.sig = signatures[sym.Choice("required", 3)]
	case "namespace":
	default:
		if depth == 0 && sym.Param("LEAF", 0) == 0 {
			n.sig = signatures[sym.Choice("sig", 4)]
		} else {
			n.sig = signatures[sym.Choice("sig", len(signatures))]
		}
	}
	if n.kind == "ensemble" || n.kind == "namespace" {
		n.subs = []*cmdNode{anyNode(name+"s", depth-1)}
	}
	return n
}

func (n *cmdNode) def() string {
	s := n.kind + " " + n.name + " "
	if n.kind != "namespace" {
		s += n.sig.spec + " "
	}
	s += "{"
	for _, c := range n.subs {
		s += c.def()
	}
	return s + "}; "
}

// usage is the usage of a command after prefix, without the first skip
// arguments.
func (n *cmdNode) usage(prefix string, skip int) string {
	s := prefix
	for i, u := range n.sig.usages {
		if i >= skip {
			s += " " + u
		}
	}
	return s
}

// help is the reference: skip of the arguments come from ensembles.
func (n *cmdNode) help(prefix string, skip int, args []string) (string, bool) {
	u := n.usage(prefix, skip)
	if n.subs == nil {
		// options are only counted by calls
		if n.sig.max >= 0 && len(args) > n.sig.max && !strings.Contains(n.sig.spec, "-") {
			return "wrong # args: should be \"" + u + "\"", false
		}
		return u, true
	}
	if len(args) <= n.sig.required {
		return u + " ?subcommand? ?arg ...?", true
	}
	sub := args[n.sig.required]
	if sub == "subcommands" {
		if len(args) > n.sig.required+1 {
			return "wrong # args: should be \"" + u + " subcommands\"", false
		}
		return u + " subcommands", true
	}
	for _, c := range n.subs {
		if c.name == sub {
			rest := append([]string{}, args[:n.sig.required]...)
			return c.help(u+" "+sub, n.sig.required, append(rest, args[n.sig.required+1:]...))
		}
	}
	return "unknown subcommand \"" + sub + "\"", false
}

// HelpUsage: help on any nesting of ensembles, namespaces and procedures, with
// any number of arguments.
func HelpUsage() {
	scope := NewRoot(nil)
	n := anyNode("c", sym.Param("DEPTH", 1))
	sym.Assert(Run(scope, n.def()).Code == core.ResultCode_OK, "harness: definition")
	var args []string
	vs := []core.Value{S("help"), S("c")}
	k := sym.Choice("n", sym.Param("N", 4)+1)
	at, level := n, 0
	for i := 0; i < k; i++ {
		var a string
		if sym.Param("WIDE", 0) > 0 {
			// names where they are expected
			a = letter(i)
			if at != nil && len(at.subs) > 0 && i == at.sig.required+level {
				at = at.subs[0]
				a = at.name
				level++
			} else if at != nil && at.kind == "ensemble" && i == at.sig.required+level {
				a = "subcommands"
				at = nil
			}
		} else {
			a = [...]string{"1", "cs", "css", "subcommands"}[sym.Choice("arg", 3+sym.Param("SUB", 1))]
		}
		args = append(args, a)
		vs = append(vs, S(a))
	}
	got := Call(scope, vs...)
	want, ok := n.help("c", 0, args)
	sym.Assert((got.Code == core.ResultCode_OK) == ok, "help on what exists, an error otherwise")
	sym.Assert(IsStr(got.Value, want), "the usage of what is called")
	Observe("r", got)
	if !ok {
		sym.Reach("error")
		return
	}
	sym.Reach("ok")
}

// ArityErrors: a call with too few or too many arguments is an error with the
// usage, and calls accept what their usage says.
func ArityErrors() {
	scope := NewRoot(nil)
	n := anyNode("c", 0)
	sym.Assume(sym.Param("WIDE", 0) == 0 || n.kind != "ensemble")
	sym.Assert(Run(scope, n.def()).Code == core.ResultCode_OK, "harness: definition")
	vs := []core.Value{S("c")}
	k := sym.Choice("n", sym.Param("N", 4)+1)
	for i := 0; i < k; i++ {
		vs = append(vs, S([...]string{"1", "-o", "-f"}[sym.Choice("arg", 3-2*sym.Param("WIDE", 0))]))
	}
	got := Call(scope, vs...)
	if got.Code == core.ResultCode_ERROR && k < n.sig.required || n.sig.max >= 0 && k > n.sig.max {
		sym.Assert(got.Code == core.ResultCode_ERROR, "too few or too many arguments are an error")
		sym.Assert(IsStr(got.Value, "wrong # args: should be \""+n.usage("c", 0)+"\""), "the error tells the usage")
		sym.Reach("arity")
		return
	}
	sym.Reach("other")
}

// MetaHelp: the subcommands of a command value are those it lists; the help, the
// arity errors and the accepted numbers of arguments of each agree.
func MetaHelp() {
	scope := NewRoot(nil)
	kinds := []struct {
		def  string
		help bool
	}{
		{"macro {a} {}", true},
		{"closure {a} {}", true},
		{"proc {a} {}", true},
		{"namespace {macro f {} {}}", true},
		{"ensemble {a} {macro f {a} {}}", true},
		{"scope {macro f {} {}}", true},
		{"module {macro f {} {}; export f}", true},
		{"alias x idem", false},
		{"coroutine {idem x}", false},
		{"idem true", true},
		{"idem false", true},
	}
	k := kinds[sym.Choice("kind", len(kinds))]
	r := Run(scope, k.def)
	sym.Assert(r.Code == core.ResultCode_OK, "harness: definition")
	v := r.Value
	call := func(help bool, sub core.Value, n int) core.Result {
		var words []core.Value
		if help {
			words = append(words, S("help"))
		}
		words = append(words, v)
		if sub != nil {
			words = append(words, sub)
		}
		for i := 0; i < n; i++ {
			words = append(words, [...]core.Value{S("f"), S("g")}[i&1])
		}
		return Call(scope, words...)
	}
	if h := call(true, nil, 0); k.help {
		_, u := core.ValueToString(h.Value)
		sym.Assert(h.Code == core.ResultCode_OK && (strings.HasSuffix(u, "> ?subcommand? ?arg ...?") || strings.HasSuffix(u, "e ?subcommand?")), "command values have help")
	} else {
		sym.Assert(h.Code == core.ResultCode_ERROR, "no help")
	}
	for _, sub := range []core.Value{S("nosuch"), T(), core.NIL} {
		sym.Assert(call(true, sub, 0).Code == core.ResultCode_ERROR, "no help for unknown subcommands")
		sym.Assert(call(false, sub, 0).Code == core.ResultCode_ERROR, "unknown subcommands are errors")
	}
	subs, ok := IsList(call(false, S("subcommands"), 0).Value)
	sym.Assert(ok && len(subs) > 0, "command values list their subcommands")
	i := sym.Choice("sub", 8)
	sym.Assume(i < len(subs))
	sub := subs[i]
	const arity = "wrong # args: should be \""
	isArity := func(r core.Result) (string, bool) {
		_, s := core.ValueToString(r.Value)
		if r.Code != core.ResultCode_ERROR || !strings.HasPrefix(s, arity) {
			return "", false
		}
		return strings.TrimSuffix(s[len(arity):], "\""), true
	}
	u, ok := isArity(call(false, sub, 0))
	if !ok {
		u, ok = isArity(call(false, sub, 9))
	}
	sym.Assert(ok, "every subcommand has a number of arguments")
	min, max, _ := countUsage(u)
	n := sym.Choice("n", 6)
	if k.help {
		h := call(true, sub, n)
		if n+2 > max {
			hu, ok := isArity(h)
			sym.Assert(ok && hu == u, "help with too many arguments is an error")
		} else {
			sym.Assert(h.Code == core.ResultCode_OK && IsStr(h.Value, u), "help gives the usage")
		}
	}
	got := call(false, sub, n)
	gu, ok := isArity(got)
	if n+2 < min || n+2 > max {
		sym.Assert(ok && gu == u, "the wrong number of arguments is an error")
		sym.Reach("arity error")
	} else {
		sym.Assert(!ok || gu != u, "a number of arguments the usage allows is accepted")
		sym.Reach("accepted")
	}
}

var builtins = []string{
	"idem", "return", "yield", "error", "break", "continue", "eval", "help",
	"loop", "while", "if", "when", "catch", "pass",
	"parse", "!", "&&", "||", "+", "-", "*", "/",
	"scope", "namespace", "ensemble", "macro", "closure", "proc", "coroutine", "alias", "module", "import",
	"let", "set", "get", "exists", "unset",
	"list.length", "list.at", "list.range", "list.append", "list.remove", "list.insert", "list.replace", "list.sort", "list.foreach",
	"dict.size", "dict.has", "dict.get", "dict.add", "dict.remove", "dict.merge", "dict.keys", "dict.values", "dict.entries", "dict.foreach",
	"string.length", "string.at", "string.range", "string.append", "string.remove", "string.insert", "string.replace",
	"string.==", "string.!=", "string.>", "string.>=", "string.<", "string.<=",
	"tuple.length", "tuple.at", "script.length", "script.append", "script.split", "argspec.usage", "argspec.set",
}

// countUsage gives how many words a usage allows.
func countUsage(u string) (min, max int, exact bool) {
	exact = true
	for i := 0; i < len(u); {
		if u[i] == ' ' {
			i++
			continue
		}
		j := i + 1
		if u[i] == '?' && i+1 < len(u) && u[i+1] != ' ' {
			for u[j] != '?' {
				j++
			}
			j++
			f := strings.Fields(u[i:j])
			if strings.HasSuffix(u[i:j], " ...?") {
				max = 1000
			}
			if len(f) > 2 || len(f) == 2 && max < 1000 {
				exact = false
			}
			max += len(f)
		} else {
			end := byte(' ')
			if u[i] == '{' {
				end = '}'
			}
			for j < len(u) && u[j] != end {
				j++
			}
			if end == '}' {
				j++
			}
			min++
			max++
		}
		i = j
	}
	return
}

// BuiltinArity: the usage of each built-in command, the number of arguments it
// accepts and its help agree.
func BuiltinArity() {
	scope := NewRoot(nil)
	b := builtins[sym.Choice("command", len(builtins))]
	words := []core.Value{S(b)}
	sub := ""
	if i := strings.IndexByte(b, '.'); i > 0 {
		sub = b[i+1:]
		words = []core.Value{S(b[:i])}
	}
	usage := words
	if sub != "" {
		usage = []core.Value{words[0], S("v"), S(sub)}
	}
	r := Call(scope, append([]core.Value{S("help")}, usage...)...)
	sym.Assert(r.Code == core.ResultCode_OK, "every command has help")
	_, u := core.ValueToString(r.Value)
	sym.Assert(u != "", "every command has a usage")
	min, max, exact := countUsage(u)
	n := sym.Choice("n", sym.Param("N", 5)+1)
	for i := 0; i < n; i++ {
		if i == 1 && sub != "" {
			words = append(words, S(sub))
			continue
		}
		switch sym.Choice("arg", 3) {
		case 0:
			words = append(words, T(S("a"), S("1")))
		case 1:
			words = append(words, Script("return"))
		case 2:
			words = append(words, S("1"))
		}
	}
	if sub != "" && n < 2 {
		return
	}
	help := Call(scope, append([]core.Value{S("help")}, words...)...)
	what := "args"
	if strings.Contains(u, " value2") && strings.HasPrefix(u, "string value1 ") {
		what = "operands"
	}
	arity := S("wrong # " + what + ": should be \"" + u + "\"")
	if len(words) > max {
		sym.Assert(help.Code == core.ResultCode_ERROR && Same(help.Value, arity), "help with too many arguments is an error")
		sym.Reach("help error")
	} else {
		sym.Assert(help.Code == core.ResultCode_OK && IsStr(help.Value, u), "help gives the usage")
		sym.Reach("help")
	}
	got := Call(scope, words...)
	if len(words) > max || len(words) < min {
		sym.Assert(got.Code == core.ResultCode_ERROR, "the wrong number of arguments is an error")
		if exact {
			sym.Assert(Same(got.Value, arity), "the error gives the usage")
		}
		sym.Reach("arity error")
	} else if exact {
		sym.Assert(got.Code != core.ResultCode_ERROR || !Same(got.Value, arity), "a number of arguments the usage allows is accepted")
		sym.Reach("accepted")
	}
}
