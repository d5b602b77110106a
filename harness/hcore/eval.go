package hcore

import (
	"helena/core"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- environment of the evaluated words ----

// Rec is a value that records the selectors applied to it.
type Rec struct{ Path string }

func (Rec) Type() core.ValueType { return core.ValueType_CUSTOM }
func (Rec) CustomType() core.CustomValueType {
	return core.CustomValueType{Name: "rec"}
}
func (r Rec) SameAs(v core.Value) bool {
	x, ok := v.(Rec)
	return ok && x == r
}
func (r Rec) SelectIndex(i core.Value) core.Result {
	return core.OK(Rec{r.Path + "[" + Show(i) + "]"})
}
func (r Rec) SelectKey(k core.Value) core.Result {
	if IsStr(k, "s") {
		return core.OK(S("r"))
	}
	return core.OK(Rec{r.Path + "(" + Show(k) + ")"})
}
func (r Rec) SelectRules(rules []core.Value) core.Result {
	s := r.Path + "{"
	for _, x := range rules {
		s += Show(x)
	}
	return core.OK(Rec{s + "}"})
}

func variable(name string) core.Value {
	switch name {
	case "s":
		return S("t")
	case "t":
		return T(S("s"), Rec{"u"})
	case "r":
		return Rec{"r"}
	case "l":
		return L(S("r"), S("s"))
	case "e":
		return T()
	case "d":
		return core.DICT(map[string]core.Value{"s": S("l"), "t": S("zz")})
	}
	return nil
}

type vars struct{}

func (vars) Resolve(name string) core.Value { return variable(name) }

type selectors struct{}

func (selectors) Resolve(rules []core.Value) (core.Result, core.Selector) {
	r, s := core.CreateGenericSelector(append([]core.Value{}, rules...))
	return r, s
}

type fnCmd func(args []core.Value) core.Result

func (f fnCmd) Execute(args []core.Value, _ any) core.Result { return f(args) }

type commands struct{ captured *[]core.Value }

func (c commands) Resolve(name core.Value) core.Command {
	switch {
	case IsStr(name, "idem"):
		return fnCmd(func(args []core.Value) core.Result { return core.OK(args[1]) })
	case IsStr(name, "cmd"):
		return fnCmd(func(args []core.Value) core.Result {
			*c.captured = append([]core.Value{}, args[1:]...)
			return core.OK(S("done"))
		})
	}
	return nil
}

// ---- symbolic words ----

const (
	kLit = iota
	kTuple
	kBlock
	kExpr
	kSub
	kExpand
	kStr
	kHere
	kTag
	kLine
	kBlockC
	nKinds
)

type mdesc struct {
	kind  int
	name  string
	shape int // tuples, expressions
	arg   core.Value
}

func word(ms ...core.Morpheme) core.WordOrValue {
	return core.WordOrValue{Word: core.Word{Morphemes: ms}}
}
func lit(s string) core.Morpheme { return core.LiteralMorpheme{Value: s} }
func script(ws ...core.WordOrValue) core.Script {
	return core.Script{Sentences: []core.Sentence{{Words: ws}}}
}

func anyMorpheme(maxKind int, alphabet string) (mdesc, core.Morpheme) {
	d := mdesc{kind: sym.Int("kind", 0, maxKind-1)}
	switch d.kind {
	case kLit:
		d.name = sym.BytesOf("lit", 1, alphabet)
		return d, lit(d.name)
	case kTuple:
		d.shape = sym.Int("tuple", 0, 3)
		switch d.shape {
		case 0:
			return d, core.TupleMorpheme{}
		case 1:
			d.name = sym.BytesOf("elem", 1, alphabet)
			return d, core.TupleMorpheme{Subscript: script(word(lit(d.name)))}
		case 2:
			d.name = sym.BytesOf("elem", 1, alphabet)
			return d, core.TupleMorpheme{Subscript: core.Script{Sentences: []core.Sentence{
				{Words: []core.WordOrValue{word(lit(d.name)), word(core.LineCommentMorpheme{Value: "c", DelimiterLength: 1})}}, {Words: []core.WordOrValue{word(lit("r"))}}}}}
		}
		return d, core.TupleMorpheme{Subscript: script(word(core.SubstituteNextMorpheme{Expansion: true, Value: "$*"}, lit("t")), word(lit("d"), core.TupleMorpheme{Subscript: script(word(lit("s")))}))}
	case kBlock:
		d.name = sym.BytesOf("block", 1, alphabet)
		return d, core.BlockMorpheme{Value: d.name, Subscript: script(word(lit(d.name)))}
	case kExpr:
		d.shape = sym.Int("expr", 0, 2)
		switch d.shape {
		case 0:
			d.arg = core.NIL
			return d, core.ExpressionMorpheme{}
		case 1:
			d.arg = S(sym.BytesOf("res", 1, alphabet))
		case 2:
			d.arg = core.INT(sym.Int64("index"))
		}
		return d, core.ExpressionMorpheme{Subscript: script(word(lit("idem")), core.WordOrValue{Value: d.arg})}
	case kSub:
		return d, core.SubstituteNextMorpheme{Value: "$"}
	case kExpand:
		return d, core.SubstituteNextMorpheme{Value: "$*", Expansion: true}
	case kStr:
		d.name = sym.BytesOf("str", 1, alphabet)
		return d, core.StringMorpheme{Morphemes: []core.Morpheme{lit(d.name), core.SubstituteNextMorpheme{Value: "$"}, lit("s")}}
	case kHere:
		return d, core.HereStringMorpheme{Value: "here", DelimiterLength: 3}
	case kTag:
		return d, core.TaggedStringMorpheme{Value: "tagged", Tag: "T"}
	case kLine:
		return d, core.LineCommentMorpheme{Value: "line", DelimiterLength: 1}
	}
	return d, core.BlockCommentMorpheme{Value: "block", DelimiterLength: 1}
}

// ---- reference evaluation ----

type refErr string

func tupleElems(d mdesc) []core.Value {
	switch d.shape {
	case 0:
		return nil
	case 1:
		return []core.Value{S(d.name)}
	case 2:
		return []core.Value{S(d.name), S("r")}
	}
	return []core.Value{S("s"), Rec{"u"}, core.NewQualifiedValue(S("d"), []core.Selector{core.KeyedSelector{Keys: []core.Value{S("s")}}})}
}

func refString(v core.Value) (string, bool) {
	switch x := v.(type) {
	case core.StringValue:
		return x.Value, true
	case core.IntegerValue:
		_, s := core.ValueToString(x)
		return s, true
	}
	return "", false
}

func refResolve(v core.Value) (core.Value, refErr) {
	switch x := v.(type) {
	case core.TupleValue:
		var out []core.Value
		for _, e := range x.Values {
			r, err := refResolve(e)
			if err != "" {
				return nil, err
			}
			out = append(out, r)
		}
		return T(out...), ""
	case core.QualifiedValue:
		r, err := refResolve(x.Source)
		for _, s := range x.Selectors {
			if err != "" {
				break
			}
			switch y := s.(type) {
			case core.KeyedSelector:
				for _, k := range y.Keys {
					if err == "" {
						r, err = refKey(r, k)
					}
				}
			case core.IndexedSelector:
				r, err = refIndex(r, y.Index)
			case core.GenericSelector:
				r, err = refRules(r, y.Rules)
			}
		}
		return r, err
	}
	name, ok := refString(v)
	if !ok {
		return nil, "invalid variable name"
	}
	r := variable(name)
	if r == nil {
		return nil, refErr("cannot resolve variable \"" + name + "\"")
	}
	return r, ""
}

func refKey(v core.Value, k core.Value) (core.Value, refErr) {
	switch x := v.(type) {
	case Rec:
		return x.SelectKey(k).Value, ""
	case core.DictionaryValue:
		s, ok := refString(k)
		if !ok {
			return nil, "invalid key"
		}
		r, ok := x.Map[s]
		if !ok {
			return nil, "unknown key"
		}
		return r, ""
	case core.TupleValue:
		var out []core.Value
		for _, e := range x.Values {
			r, err := refKey(e, k)
			if err != "" {
				return nil, err
			}
			out = append(out, r)
		}
		return T(out...), ""
	case core.QualifiedValue:
		sel := append([]core.Selector{}, x.Selectors...)
		if n := len(sel); n > 0 {
			if l, ok := sel[n-1].(core.KeyedSelector); ok {
				sel[n-1] = core.KeyedSelector{Keys: append(append([]core.Value{}, l.Keys...), k)}
				return core.QualifiedValue{Source: x.Source, Selectors: sel}, ""
			}
		}
		return core.QualifiedValue{Source: x.Source, Selectors: append(sel, core.KeyedSelector{Keys: []core.Value{k}})}, ""
	}
	return nil, "value is not key-selectable"
}

func refIndex(v core.Value, i core.Value) (core.Value, refErr) {
	at := func(n int, get func(i int) core.Value) (core.Value, refErr) {
		x, ok := i.(core.IntegerValue)
		if !ok {
			s, ok := refString(i)
			if !ok {
				return nil, "value has no string representation"
			}
			return nil, refErr("invalid integer \"" + s + "\"")
		}
		for j := 0; j < n; j++ {
			if x.Value == int64(j) {
				return get(j), ""
			}
		}
		return nil, "index out of range"
	}
	switch x := v.(type) {
	case Rec:
		return x.SelectIndex(i).Value, ""
	case core.ListValue:
		return at(len(x.Values), func(i int) core.Value { return x.Values[i] })
	case core.StringValue:
		return at(len(x.Value), func(i int) core.Value { return S(x.Value[i : i+1]) })
	case core.TupleValue:
		var out []core.Value
		for _, e := range x.Values {
			r, err := refIndex(e, i)
			if err != "" {
				return nil, err
			}
			out = append(out, r)
		}
		return T(out...), ""
	case core.QualifiedValue:
		return core.QualifiedValue{Source: x.Source, Selectors: append(append([]core.Selector{}, x.Selectors...), core.IndexedSelector{Index: i})}, ""
	}
	return nil, "value is not index-selectable"
}

func refRules(v core.Value, rules []core.Value) (core.Value, refErr) {
	switch x := v.(type) {
	case Rec:
		return x.SelectRules(rules).Value, ""
	case core.TupleValue:
		var out []core.Value
		for _, e := range x.Values {
			r, err := refRules(e, rules)
			if err != "" {
				return nil, err
			}
			out = append(out, r)
		}
		return T(out...), ""
	case core.QualifiedValue:
		return core.QualifiedValue{Source: x.Source, Selectors: append(append([]core.Selector{}, x.Selectors...), core.GenericSelector{Rules: rules})}, ""
	}
	return nil, "value is not selectable"
}

func refSelect(v core.Value, d mdesc) (core.Value, refErr) {
	switch d.kind {
	case kTuple:
		keys := tupleElems(d)
		if len(keys) == 0 {
			return nil, "empty selector"
		}
		var err refErr
		for _, k := range keys {
			if v, err = refKey(v, k); err != "" {
				return nil, err
			}
		}
		return v, ""
	case kExpr:
		if IsNil(d.arg) {
			return nil, "invalid index"
		}
		return refIndex(v, d.arg)
	}
	return refRules(v, []core.Value{T(S(d.name))})
}

func isSel(d mdesc) bool { return d.kind == kTuple || d.kind == kBlock || d.kind == kExpr }

// refWordEval gives the values the word stands for.
func refWordEval(ds []mdesc) ([]core.Value, refErr) {
	const invalid = refErr("invalid word structure")
	if len(ds) == 0 {
		return nil, invalid
	}
	first := ds[0]
	rest := ds[1:]
	allSel := true
	for _, d := range rest {
		allSel = allSel && isSel(d)
	}
	switch first.kind {
	case kLine, kBlockC:
		if len(rest) > 0 {
			return nil, invalid
		}
		return nil, ""
	case kStr, kHere, kTag:
		if len(rest) > 0 {
			return nil, invalid
		}
		switch first.kind {
		case kStr:
			return []core.Value{S(first.name + "t")}, ""
		case kHere:
			return []core.Value{S("here")}, ""
		}
		return []core.Value{S("tagged")}, ""
	case kTuple, kBlock:
		if !allSel {
			return nil, invalid
		}
	}
	if len(rest) == 0 {
		switch first.kind {
		case kLit:
			return []core.Value{S(first.name)}, ""
		case kTuple:
			return []core.Value{T(tupleElems(first)...)}, ""
		case kBlock:
			return []core.Value{S("{" + first.name + "}")}, ""
		case kExpr:
			return []core.Value{first.arg}, ""
		}
		return nil, invalid
	}
	if allSel && (first.kind == kLit || first.kind == kTuple || first.kind == kBlock) {
		var src core.Value = S(first.name)
		if first.kind == kTuple {
			src = T(tupleElems(first)...)
		}
		var v core.Value = core.QualifiedValue{Source: src}
		var err refErr
		for _, d := range rest {
			if v, err = refSelect(v, d); err != "" {
				return nil, err
			}
		}
		return []core.Value{v}, ""
	}
	// stems: literal, expression, or $...source selectors
	type stem struct {
		levels int
		src    mdesc
		sels   []mdesc
	}
	var stems []stem
	tuples := false
	for i := 0; i < len(ds); {
		switch ds[i].kind {
		case kLit, kExpr:
			stems = append(stems, stem{0, ds[i], nil})
			i++
		case kSub, kExpand:
			s := stem{}
			for i < len(ds) && (ds[i].kind == kSub || ds[i].kind == kExpand) {
				s.levels++
				i++
			}
			if i == len(ds) {
				if len(ds) == 1 {
					return nil, invalid
				}
				// substitutions with no source
				return nil, "dangling"
			}
			if !isSel(ds[i]) && ds[i].kind != kLit {
				return nil, invalid
			}
			tuples = tuples || ds[i].kind == kTuple
			s.src = ds[i]
			i++
			for i < len(ds) && isSel(ds[i]) {
				s.sels = append(s.sels, ds[i])
				i++
			}
			stems = append(stems, s)
		default:
			return nil, invalid
		}
	}
	if tuples && len(stems) > 1 {
		return nil, invalid
	}
	var vals []core.Value
	for _, s := range stems {
		var v core.Value
		var err refErr
		n := s.levels
		switch s.src.kind {
		case kLit, kBlock:
			v = S(s.src.name)
		case kTuple:
			v = T(tupleElems(s.src)...)
		case kExpr:
			v = s.src.arg
		}
		if n > 0 && s.src.kind != kExpr {
			v, err = refResolve(v)
		}
		for _, d := range s.sels {
			if err == "" {
				v, err = refSelect(v, d)
			}
		}
		for ; n > 1; n-- {
			if err == "" {
				v, err = refResolve(v)
			}
		}
		if err != "" {
			return nil, err
		}
		vals = append(vals, v)
	}
	if len(stems) == 1 {
		if first.kind == kExpand {
			if t, ok := vals[0].(core.TupleValue); ok {
				return t.Values, ""
			}
		}
		return vals, ""
	}
	all := ""
	for _, v := range vals {
		s, ok := refString(v)
		if !ok {
			return nil, "value has no string representation"
		}
		all += s
	}
	return []core.Value{S(all)}, ""
}

// WordEvaluation: the values a word contributes to its sentence are those an
// independent evaluation of its morphemes yields, or the sentence fails.
func WordEvaluation() {
	n := sym.Param("K", 3)
	kinds := sym.Param("KINDS", nKinds)
	alphabet := "srtldze"[:sym.Param("NAMES", 6)]
	var ds []mdesc
	var ms []core.Morpheme
	for i := 0; i < n; i++ {
		d, m := anyMorpheme(kinds, alphabet)
		ds = append(ds, d)
		ms = append(ms, m)
	}
	want, werr := refWordEval(ds)
	// the parser turns substitutions with no source into text (ParserReference)
	sym.Assume(werr != "dangling")
	var captured []core.Value
	ev := core.NewCompilingEvaluator(vars{}, commands{&captured}, selectors{}, nil)
	// neighbouring words must not be disturbed
	res := ev.EvaluateSentence(core.Sentence{Words: []core.WordOrValue{word(lit("cmd")), word(lit("before")), {Word: core.Word{Morphemes: ms}}, word(lit("after"))}})
	Observe("res", res)
	sym.ObserveInt("args", len(captured))
	if werr != "" {
		sym.Assert(res.Code == core.ResultCode_ERROR, "ill-formed or unresolvable word fails")
		sym.Assert(captured == nil, "no command runs with a failed word")
		if werr != "index out of range" {
			sym.Assert(IsStr(res.Value, string(werr)), "error message")
		}
		sym.Reach("error")
		return
	}
	sym.Assert(res.Code == core.ResultCode_OK, "word evaluates")
	sym.Assert(IsStr(res.Value, "done"), "command result")
	sym.Assert(len(captured) == len(want)+2, "number of values")
	sym.Assert(IsStr(captured[0], "before") && IsStr(captured[len(captured)-1], "after"), "neighbouring words")
	for i, v := range want {
		got := captured[i+1]
		if sv, ok := got.(core.ScriptValue); ok {
			sym.Assert(sv.Source != nil && IsStr(v, "{"+*sv.Source+"}"), "block value")
			continue
		}
		sym.Assert(Same(got, v), "value of the word")
	}
	sym.Reach("value")
}

// anyCommands resolves any command name: what runs is what is called.
type anyCommands struct{ captured *[]core.Value }

func (c anyCommands) Resolve(name core.Value) core.Command {
	if IsStr(name, "idem") {
		return commands{}.Resolve(name)
	}
	return fnCmd(func(args []core.Value) core.Result {
		*c.captured = append(append(*c.captured, core.FALSE), args...)
		return core.OK(S("done"))
	})
}

// sameWord compares values; blocks are given by their text.
func sameWord(got, want core.Value) bool {
	if sv, ok := got.(core.ScriptValue); ok {
		return sv.Source != nil && IsStr(want, "{"+*sv.Source+"}")
	}
	g, gok := got.(core.TupleValue)
	w, wok := want.(core.TupleValue)
	if gok && wok {
		if len(g.Values) != len(w.Values) {
			return false
		}
		for i := range g.Values {
			if !sameWord(g.Values[i], w.Values[i]) {
				return false
			}
		}
		return true
	}
	return Same(got, want)
}

// WordPlaces: a word gives the same values wherever it stands: as the first or
// only word of a sentence, in tuples, selectors and expressions, more than once.
func WordPlaces() {
	n := 1 + sym.Choice("n", sym.Param("K", 2))
	kinds := sym.Param("KINDS", nKinds)
	alphabet := "esrtldz"[:sym.Param("NAMES", 7)]
	var ds []mdesc
	var ms []core.Morpheme
	for i := 0; i < n; i++ {
		d, m := anyMorpheme(kinds, alphabet)
		ds = append(ds, d)
		ms = append(ms, m)
	}
	vals, err := refWordEval(ds)
	sym.Assume(err != "dangling")
	w := core.WordOrValue{Word: core.Word{Morphemes: ms}}
	tuple := func(ws ...core.WordOrValue) core.Morpheme { return core.TupleMorpheme{Subscript: script(ws...)} }
	and := func(before []core.Value, after ...core.Value) []core.Value {
		return append(append(append([]core.Value{}, before...), vals...), after...)
	}
	cmd, a, b := word(lit("cmd")), word(lit("a")), word(lit("b"))
	A, B := S("a"), S("b")
	dollar := core.SubstituteNextMorpheme{Value: "$"}
	block := len(ds) == 1 && ds[0].kind == kBlock
	var src core.Script
	var want [][]core.Value
	one := func(v core.Value) { want = [][]core.Value{{S("cmd"), v, B}} }
	switch sym.Choice("place", 13) {
	case 0: // first
		src = script(w, a, b)
		sym.Assume(!block && (len(vals) == 0 || !IsNil(vals[0])))
		want = [][]core.Value{and(nil, A, B)}
	case 1: // alone, after another sentence
		src = script(cmd, a)
		src.Sentences = append(src.Sentences, script(w).Sentences...)
		src.Sentences = append(src.Sentences, script(cmd, b).Sentences...)
		sym.Assume(!block)
		want = [][]core.Value{{S("cmd"), A}}
		if len(vals) > 0 {
			want = append(want, vals)
		}
		want = append(want, []core.Value{S("cmd"), B})
	case 2:
		src = script(cmd, word(tuple(w, a)), b)
		one(T(and(nil, A)...))
	case 3:
		src = script(cmd, word(tuple(a, w)), b)
		one(T(and([]core.Value{A})...))
	case 4:
		src = script(cmd, word(tuple(w)), b)
		one(T(vals...))
	case 5:
		src = script(cmd, word(tuple(word(tuple(w)), a, word(tuple(w, w)))), b)
		one(T(T(vals...), A, T(and(vals)...)))
	case 6, 7: // keys
		sym.Assume(!block)
		if sym.Bool("only") {
			src = script(cmd, word(dollar, lit("r"), tuple(w)), b)
		} else {
			src = script(cmd, word(dollar, lit("r"), tuple(w, a)), b)
			vals = and(nil, A)
		}
		var v core.Value = Rec{"r"}
		if err == "" && len(vals) == 0 {
			err = "empty selector"
		}
		for _, k := range vals {
			if err == "" {
				v, err = refKey(v, k)
			}
		}
		one(v)
	case 8: // rules
		sym.Assume(!block)
		s := script(w, a)
		s.Sentences = append(s.Sentences, script(b, w).Sentences...)
		src = script(cmd, word(dollar, lit("r"), core.BlockMorpheme{Subscript: s}), b)
		v, _ := refRules(Rec{"r"}, []core.Value{T(and(nil, A)...), T(and([]core.Value{B})...)})
		one(v)
	case 9: // index
		sym.Assume(!block)
		src = script(cmd, word(dollar, lit("r"), core.ExpressionMorpheme{Subscript: script(word(lit("idem")), w, a)}), b)
		v, e := refSelect(Rec{"r"}, mdesc{kind: kExpr, arg: and(nil, A)[0]})
		if err == "" {
			err = e
		}
		one(v)
	case 10: // the last sentence of an expression
		s := script(word(lit("idem")), b)
		s.Sentences = append(s.Sentences, script(word(lit("idem")), w, a).Sentences...)
		src = script(cmd, word(core.ExpressionMorpheme{Subscript: s}), b)
		one(and(nil, A)[0])
	case 11: // twice
		src = script(cmd, w, a, w, w)
		want = [][]core.Value{append(and([]core.Value{S("cmd")}, A), and(vals)...)}
	case 12: // qualified words
		sym.Assume(!block)
		src = script(cmd, word(lit("q"), tuple(a, w)), b)
		one(core.QualifiedValue{Source: S("q"), Selectors: []core.Selector{core.KeyedSelector{Keys: and([]core.Value{A})}}})
	}
	var captured []core.Value
	ev := core.NewCompilingEvaluator(vars{}, anyCommands{&captured}, selectors{}, nil)
	res := ev.EvaluateScript(src)
	Observe("res", res)
	if err != "" {
		sym.Assert(res.Code == core.ResultCode_ERROR, "a word that fails fails everywhere")
		if err != "index out of range" {
			sym.Assert(IsStr(res.Value, string(err)), "error message")
		}
		sym.Reach("error")
		return
	}
	sym.Assert(res.Code == core.ResultCode_OK, "a word evaluates everywhere")
	at := 0
	for _, c := range want {
		if len(c) > 0 && IsStr(c[0], "idem") {
			return
		}
		sym.Assert(at+1+len(c) <= len(captured), "every sentence runs with its words")
		at++
		for _, v := range c {
			sym.Assert(sameWord(captured[at], v), "value of the word")
			at++
		}
	}
	sym.Assert(at == len(captured), "nothing else runs")
	sym.Reach("value")
}

// chain is a set of variables each holding the name of the next.
type chain int

func (c chain) Resolve(name string) core.Value {
	if len(name) == 1 && name[0] >= 'a' && int(name[0]-'a') < int(c) {
		return S(string([]byte{name[0] + 1}))
	}
	return nil
}

// SubstitutionLevels: any number of substitutions of any source resolves as
// many times, anywhere.
func SubstitutionLevels() {
	names := sym.Param("N", 8)
	n := 1 + sym.Choice("levels", names)
	start := sym.Choice("start", names)
	at := byte('a' + start)
	name := string([]byte{at})
	var ms []core.Morpheme
	for i := 0; i < n; i++ {
		ms = append(ms, core.SubstituteNextMorpheme{Value: "$", Expansion: i == 0 && sym.Bool("expand")})
	}
	tuple := false
	levels := n
	switch sym.Choice("source", 4) {
	case 0:
		ms = append(ms, lit(name))
	case 1:
		ms = append(ms, core.BlockMorpheme{Value: name, Subscript: script(word(lit(name)))})
	case 2:
		ms = append(ms, core.ExpressionMorpheme{Subscript: script(word(lit("idem")), word(lit(name)))})
		levels--
	case 3:
		ms = append(ms, core.TupleMorpheme{Subscript: script(word(lit(name)), word(core.TupleMorpheme{Subscript: script(word(lit(name)))}))})
		tuple = true
	}
	end := string([]byte{at + byte(levels)})
	var want core.Value = S(end)
	place := sym.Choice("place", 4)
	var w core.WordOrValue
	ok := start+levels <= names
	switch place {
	case 0:
		w = word(ms...)
		if tuple {
			want = T(want, T(want))
			if ms[0].(core.SubstituteNextMorpheme).Expansion {
				want = S(end)
			}
		}
	case 1:
		sym.Assume(!tuple)
		w = word(append([]core.Morpheme{lit("x")}, ms...)...)
		want = S("x" + end)
	case 2:
		sym.Assume(!tuple)
		w = word(core.StringMorpheme{Morphemes: append(append([]core.Morpheme{}, ms...), lit("y"))})
		want = S(end + "y")
	case 3: // two runs of levels
		sym.Assume(!tuple)
		w = word(append(append([]core.Morpheme{}, ms...), append([]core.Morpheme{lit("-")}, ms...)...)...)
		want = S(end + "-" + end)
	}
	var captured []core.Value
	ev := core.NewCompilingEvaluator(chain(names), commands{&captured}, selectors{}, nil)
	res := ev.EvaluateSentence(core.Sentence{Words: []core.WordOrValue{word(lit("cmd")), w}})
	Observe("res", res)
	if !ok {
		sym.Assert(res.Code == core.ResultCode_ERROR, "names that end cannot be resolved")
		sym.Reach("error")
		return
	}
	sym.Assert(res.Code == core.ResultCode_OK && len(captured) > 0 && Same(captured[0], want), "as many resolutions as substitutions")
	sym.Reach("value")
}
