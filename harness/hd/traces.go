package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	"helena/zzverif/sym"
)

// ---- error traces ----

// traced runs a body: # stands for the body, % for the level, and @% comes
// before the sentence that is being called while the body runs. Its levels
// are the words of the calls around the body from innermost to outermost: - is
// for calls made from no source, * is any word, # the body and _ any words.
type traced struct {
	src    string
	levels []string
}

var tracedForms = []traced{
	{"@%eval {#}", []string{"eval #"}},
	{"idem [#]", nil},
	{"idem \"a[#]\"", nil},
	{"@%if true {#} else {act wrong}", []string{"if true # else *"}},
	{"@%if false {act wrong} else {#}", []string{"if false * else #"}},
	{"@%if {#} {act wrong}", []string{"if # *"}},
	{"@%when {{} {act wrong} {#} {act wrong}}", nil},
	{"@%when {false {act wrong} true {#} {act wrong}}", []string{"when *"}},
	{"macro m% {} {#}; @%m%", []string{"m%"}},
	{"closure k% {x} {#}; @%k% 1", []string{"k% 1"}},
	{"proc p% {*x} {#}; @%p% 1 2", []string{"p% 1 2"}},
	{"@%(eval) {#}", []string{"* #"}},
	{"alias a% (eval {#}); @%a%", []string{"a%"}},
	{"@%scope {#}", []string{"scope #"}},
	{"scope s% {}; @%s% eval {#}", []string{"s% eval #"}},
	{"scope s% {macro m {} {#}}; @%s% call m", []string{"-m", "s% call m"}},
	{"@%namespace n% {#}", []string{"namespace n% #"}},
	{"namespace n% {macro m {} {#}}; @%n% m", []string{"-*", "n% m"}},
	{"namespace n% {}; @%[n%] eval {#}", []string{"* eval #"}},
	{"namespace n% {closure m {a} {#}}; @%[n%] call m 1", []string{"-* 1", "* call m 1"}},
	{"ensemble e% {} {macro m {} {#}}; @%e% m", []string{"e% m"}},
	{"ensemble e% {a} {macro m {a} {#}}; @%e% 1 m", []string{"e% 1 m"}},
	{"ensemble e% {a b} {proc m {a b c} {#}}; @%e% 1 2 m 3", []string{"e% 1 2 m 3"}},
	{"@%list (1) foreach v {#}", []string{"list * foreach v #"}},
	{"@%dict (a 1) foreach v {#}", []string{"dict * foreach v #"}},
	{"set n% 0; @%while {$[+ 1 $n%]; true} {#; act once; break}", nil},
	{"@%loop v {#} {break}", []string{"loop v # *"}},
	{"@%loop v {idem 1} {#; break}", []string{"loop v * *"}},
	{"@%while true {#; break}", []string{"while true *"}},
	{"@%while {#} {break}", []string{"while # *"}},
	{"macro m% {} (idem {#}); @%m%", []string{"m%"}},
	{"@%catch {#} return v {act wrong}", []string{"catch # return v *"}},
	{"@%catch {#} error v {pass}", []string{"catch # error v *"}},
	{"@%catch {error x} error v {#}", []string{"catch * error v #"}},
	{"@%catch {idem a} finally {#}", []string{"catch * finally #"}},
	{"@%&& true {#}", []string{"&& true #"}},
	{"@%|| {#} true", []string{"|| # true"}},
	{"@%! {#}", []string{"! #"}},
	{"set c% [coroutine {#}]; @%$c% wait", []string{"* wait"}},
	{"set c% [coroutine {yield; #}]; $c% wait; @%$c% yield a", []string{"* yield a"}},
	{"macro m% {(?x {#})} {act wrong}; @%m%", []string{"m%"}},
	{"macro g% {x} {#}; macro m% {(g% x)} {act wrong}; @%m% 1", []string{"-g% 1", "m% 1"}},
	{"eval {act before}; @%|> eval {#}", nil},
}

func init() {
	n := 0
	for _, f := range tracedForms {
		if f.levels != nil || f.src[:4] == "idem" {
			tracedForms[n] = f
			n++
		}
	}
	tracedForms = tracedForms[:n]
}

// level is an expected level of a trace.
type level struct {
	words string
	body  string
	mark  byte
}

// split splits words at spaces.
func split(s string) []string {
	var out []string
	w := ""
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			out = append(out, w)
			w = ""
		} else {
			w += s[i : i+1]
		}
	}
	return append(out, w)
}

// unmarked removes the marks of a source and gives their positions.
func unmarked(src string) (string, map[byte]core.SourcePosition) {
	out := ""
	at := map[byte]core.SourcePosition{}
	p := core.SourcePosition{}
	for i := 0; i < len(src); i++ {
		if src[i] == '@' {
			i++
			at[src[i]] = p
			continue
		}
		out += src[i : i+1]
		p.Index++
		p.Column++
		if src[i] == '\n' {
			p.Line++
			p.Column = 0
		}
	}
	return out, at
}

func (l level) matches(frame []core.Value) bool {
	if l.words == "_" {
		return true
	}
	words := split(l.words)
	if len(words) != len(frame) {
		return false
	}
	for i, w := range words {
		switch w {
		case "*":
		case "#":
			v, ok := frame[i].(core.ScriptValue)
			if !ok || v.Source == nil || *v.Source != l.body {
				return false
			}
		default:
			ok, t := core.ValueToString(frame[i])
			if ok.Code != core.ResultCode_OK || t != w {
				return false
			}
		}
	}
	return true
}

// ErrorTraces: the trace captured with an error has a level for each call that
// was being made, from the innermost to the outermost, with its words and the
// position of its sentence.
func ErrorTraces() {
	positions := sym.Param("POS", 1) > 0
	opts := &hel.ScopeOptions{CapturePositions: positions, CaptureErrorStack: true}
	scope := NewRoot(opts)
	w := newWorld(scope, 12)
	w.answer = func(string, core.Value) core.Value { return core.TRUE }
	w.codes = func(tag string) core.ResultCode {
		if tag == "b" || tag == "c" {
			switch sym.Choice("code", 3) {
			case 0:
				return core.ResultCode_ERROR
			case 1:
				return core.ResultCode_YIELD
			}
		}
		return core.ResultCode_OK
	}
	var want []level
	var body string
	sep := [...]string{"; ", "\n  "}[sym.Choice("separator", 2)]
	switch sym.Choice("body", 5) {
	case 0:
		body = "@yact b" + sep + "@zact c"
	case 1:
		body = "act a" + sep + "@znope 1"
		want = []level{{"nope 1", "", 'z'}}
	case 2:
		body = "idem a" + sep + "idem x @z$nope"
		want = []level{{"_", "", 'z'}}
	case 3:
		body = "catch {error z} error e {idem $e}" + sep + "@zerror [idem b]"
		want = []level{{"error b", "", 'z'}}
	case 4:
		body = "@zidem" + sep + "act wrong"
		want = []level{{"idem", "", 'z'}}
	}
	acts := want == nil
	d := sym.Param("D", 2)
	var outer []level
	for i := 0; i < d; i++ {
		f := tracedForms[sym.Choice("form", len(tracedForms))]
		inner, _ := unmarked(body)
		for j, l := range f.levels {
			lv := level{fill(l, "#", letter(i)), inner, letter(i)[0]}
			if j+1 < len(f.levels) {
				lv.mark = '-'
				lv.words = lv.words[1:]
			}
			outer = append(outer, lv)
		}
		body = fill(f.src, body, letter(i)) + sep + "act q"
	}
	src, at := unmarked(body)
	source := &core.Source{}
	tree := core.NewParser(&core.ParserOptions{CapturePositions: true}).ParseTokens(core.Tokenizer{}.Tokenize(src), source)
	sym.Assert(tree.Success, "harness: script does not parse")
	got := w.run(scope.PrepareProcess(scope.Compile(*tree.Script)))
	if acts && got.Code == core.ResultCode_ERROR {
		end := w.acts[len(w.acts)-1]
		if end.r.Code != core.ResultCode_ERROR {
			sym.Reach("ended otherwise")
			return
		}
		if text(end.args) == "b" {
			want = []level{{"act b", "", 'y'}}
		} else {
			want = []level{{"act c", "", 'z'}}
		}
	}
	if want == nil {
		sym.Assert(got.Code != core.ResultCode_ERROR, "no error")
		sym.Reach("ok")
		return
	}
	want = append(want, outer...)
	sym.Assert(got.Code == core.ResultCode_ERROR, "the error ends the script")
	stack, ok := got.Data.(*core.ErrorStack)
	sym.Assert(ok, "errors are traced")
	sym.ObserveInt("depth", int(stack.Depth()))
	sym.Assert(int(stack.Depth()) == len(want), "one level per call being made")
	for i, l := range want {
		g := stack.Level(uint(i))
		sym.Assert(l.matches(*g.Frame), "each level has the words of its call")
		if !positions || l.mark == '-' {
			sym.Assert(g.Position == nil, "calls from no source have no position")
			continue
		}
		sym.Assert(g.Position != nil && *g.Position == at[l.mark], "each level has the position of its sentence")
		sym.Assert(g.Source == source, "each level has its source")
	}
	sym.Reach("error")
}
