package hp

import (
	"helena/core"
	"helena/native/go_os"
	"helena/native/go_regexp"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
	"regexp"
)

var patterns = []string{"a", "a*", "(a)|b", "(a+)(b)?", "^a|b$", "(?P<x>[^a])(?P<y>a?)", "a|ab", "", "a{2}", "[\\n-z]", "$", "b*$"}

func reCall(words ...core.Value) core.Result {
	return go_regexp.RegexpCmd{}.Execute(append([]core.Value{S("regexp")}, words...), nil)
}

func ints(m []int) core.Value {
	vs := []core.Value{}
	for _, i := range m {
		vs = append(vs, I(i))
	}
	return L(vs...)
}

func strs(m []string) core.Value {
	vs := []core.Value{}
	for _, s := range m {
		vs = append(vs, S(s))
	}
	return L(vs...)
}

// Regexps: each method gives what Go's method of the same name gives.
func Regexps() {
	p := patterns[sym.Choice("pattern", len(patterns))]
	posix := sym.Bool("posix")
	var re *regexp.Regexp
	var err error
	var r core.Result
	if posix {
		re, err = regexp.CompilePOSIX(p)
		r = reCall(S("CompilePOSIX"), S(p))
	} else {
		re, err = regexp.Compile(p)
		r = reCall(S("Compile"), S(p))
	}
	if err != nil {
		sym.Assert(r.Code == core.ResultCode_ERROR, "invalid expressions are errors")
		return
	}
	sym.Assert(r.Code == core.ResultCode_OK, "valid expressions are accepted")
	v := r.Value
	if sym.Bool("longest") {
		re.Longest()
		sym.Assert(reCall(S("Longest"), v).Code == core.ResultCode_OK, "Longest is accepted")
	}
	s := sym.BytesOf("s", sym.Choice("len", sym.Param("N", 2)+1), "ab\n")
	n := [...]int{-1, 0, 1, 2, 1 << 32}[sym.Choice("n", 5)]
	var want core.Value = core.NIL
	var got core.Result
	switch sym.Choice("method", 18) {
	case 0:
		got = reCall(S("FindAllString"), v, S(s), I(n))
		if m := re.FindAllString(s, n); m != nil {
			want = strs(m)
		}
	case 1:
		got = reCall(S("FindAllStringIndex"), v, S(s), I(n))
		if m := re.FindAllStringIndex(s, n); m != nil {
			vs := []core.Value{}
			for _, x := range m {
				vs = append(vs, ints(x))
			}
			want = L(vs...)
		}
	case 2:
		got = reCall(S("FindAllStringSubmatch"), v, S(s), I(n))
		if m := re.FindAllStringSubmatch(s, n); m != nil {
			vs := []core.Value{}
			for _, x := range m {
				vs = append(vs, strs(x))
			}
			want = L(vs...)
		}
	case 3:
		got = reCall(S("FindAllStringSubmatchIndex"), v, S(s), I(n))
		if m := re.FindAllStringSubmatchIndex(s, n); m != nil {
			vs := []core.Value{}
			for _, x := range m {
				vs = append(vs, ints(x))
			}
			want = L(vs...)
		}
	case 4:
		got = reCall(S("FindString"), v, S(s))
		want = S(re.FindString(s))
	case 5:
		got = reCall(S("FindStringIndex"), v, S(s))
		if m := re.FindStringIndex(s); m != nil {
			want = ints(m)
		}
	case 6:
		got = reCall(S("FindStringSubmatch"), v, S(s))
		if m := re.FindStringSubmatch(s); m != nil {
			want = strs(m)
		}
	case 7:
		got = reCall(S("FindStringSubmatchIndex"), v, S(s))
		if m := re.FindStringSubmatchIndex(s); m != nil {
			want = ints(m)
		}
	case 8:
		got = reCall(S("LiteralPrefix"), v)
		prefix, complete := re.LiteralPrefix()
		want = T(S(prefix), core.BOOL(complete))
	case 9:
		got = reCall(S("MatchString"), v, S(s))
		want = core.BOOL(re.MatchString(s))
	case 10:
		got = reCall(S("NumSubexp"), v)
		want = I(re.NumSubexp())
	case 11:
		repl := [...]string{"", "x", "$1", "$$", "<${x}>"}[sym.Choice("repl", 5)]
		got = reCall(S("ReplaceAllLiteralString"), v, S(s), S(repl))
		want = S(re.ReplaceAllLiteralString(s, repl))
	case 12:
		repl := [...]string{"", "x", "$1", "$$", "<${x}>"}[sym.Choice("repl", 5)]
		got = reCall(S("ReplaceAllString"), v, S(s), S(repl))
		want = S(re.ReplaceAllString(s, repl))
	case 13:
		got = reCall(S("Split"), v, S(s), I(n))
		want = strs(re.Split(s, n))
	case 14:
		got = reCall(S("String"), v)
		want = S(re.String())
	case 15:
		got = reCall(S("SubexpIndex"), v, S("y"))
		want = I(re.SubexpIndex("y"))
	case 16:
		got = reCall(S("SubexpNames"), v)
		want = strs(re.SubexpNames())
	case 17:
		got = reCall(S("QuoteMeta"), S(p))
		want = S(regexp.QuoteMeta(p))
	}
	Observe("r", got)
	sym.Assert(got.Code == core.ResultCode_OK, "methods give a result")
	sym.Assert(Same(got.Value, want), "methods give what Go's give")
	sym.Reach("end")
}

var methods = []string{"QuoteMeta", "Compile", "CompilePOSIX", "FindAllString", "FindAllStringIndex", "FindAllStringSubmatch", "FindAllStringSubmatchIndex", "FindString", "FindStringIndex", "FindStringSubmatch", "FindStringSubmatchIndex", "LiteralPrefix", "Longest", "MatchString", "NumSubexp", "ReplaceAllLiteralString", "ReplaceAllString", "ReplaceAllStringFunc", "Split", "String", "SubexpIndex", "SubexpNames", "nope"}

// RegexpTotality: every method on every number and kind of arguments gives a
// result.
func RegexpTotality() {
	n := sym.Choice("n", sym.Param("N", 3)+2)
	args := []core.Value{}
	if n > 0 {
		args = append(args, S(methods[sym.Choice("method", len(methods))]))
	}
	for i := 1; i < n; i++ {
		if sym.Bool("regexp") {
			args = append(args, reCall(S("Compile"), S("(a")).Value)
			args[i] = reCall(S("Compile"), S("(a)?b")).Value
		} else if k := sym.Choice("text", 4); k < 3 {
			args = append(args, S([...]string{"(", "ab", "-1"}[k]))
		} else {
			args = append(args, anyArg("arg"))
		}
	}
	got := reCall(args...)
	sym.Assert(got.Value != nil, "every result has a value")
	if got.Code == core.ResultCode_ERROR {
		sym.Assert(got.Value.Type() == core.ValueType_STRING, "errors have messages")
		sym.Reach("error")
	} else {
		sym.Reach("ok")
	}
}

// Files: ReadFile gives the content of the file as it is at the time.
func Files() {
	files := map[string]string{}
	names := []string{"vp_f", "vp_g"}
	for _, n := range names {
		sym.RemoveFile(n)
	}
	for k := sym.Param("K", 3); k > 0; k-- {
		n := names[sym.Choice("file", 2)]
		switch sym.Choice("act", 3) {
		case 0:
			s := sym.Bytes("content", sym.Choice("len", sym.Param("N", 2)+1))
			sym.WriteFile(n, s)
			files[n] = s
		case 1:
			sym.RemoveFile(n)
			delete(files, n)
		case 2:
			got := go_os.OsCmd{}.Execute([]core.Value{S("os"), S("ReadFile"), S(n)}, nil)
			if s, ok := files[n]; ok {
				sym.Assert(got.Code == core.ResultCode_OK && Same(got.Value, S(s)), "files are read as they are")
				sym.Reach("ok")
			} else {
				sym.Assert(got.Code == core.ResultCode_ERROR, "missing files are errors")
				sym.Reach("error")
			}
		}
	}
}
