package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// tags returns n distinct string values.
func tags(prefix string, n int) []core.Value {
	vs := make([]core.Value, n)
	for i := range vs {
		vs[i] = mixedTag(i, prefix+string(rune('0'+i)))
	}
	return vs
}

// mixedTag is a text or, when MIXED, a value of a kind that goes with i.
func mixedTag(i int, t string) core.Value {
	if m := sym.Param("MIXED", 0); m > 0 {
		switch (i + m) % 4 {
		case 1:
			return core.NIL
		case 2:
			return T()
		case 3:
			return T(core.NIL, S(t))
		}
	}
	return S(t)
}

// oddOne replaces at most one of vs by a value of another kind, when ODD.
func oddOne(name string, vs []core.Value) {
	if sym.Param("ODD", 0) == 0 || len(vs) == 0 {
		return
	}
	if at := sym.Choice(name+"at", len(vs)+1); at < len(vs) {
		vs[at] = odd(name, vs[at])
	}
}

// odd is a value of another kind than v, made out of it.
func odd(name string, v core.Value) core.Value {
	switch sym.Choice(name, 5) {
	case 0:
		return core.NIL
	case 1:
		return T()
	case 2:
		return T(v)
	case 3:
		return L(core.NIL, v)
	}
	return T(core.NIL)
}

// word1 is the text of a word that gives v.
func word1(v core.Value) string {
	if t, ok := IsTuple(v); ok {
		return "(" + words(t) + ")"
	}
	if IsNil(v) {
		return "[]"
	}
	return sym.Concretize(v.(core.StringValue).Value)
}

// sequence presents vs as a list, a tuple or a script.
func sequence(name string, vs []core.Value) core.Value {
	switch sym.Choice(name, 4) {
	case 0:
		return L(vs...)
	case 1:
		return T(vs...)
	case 2:
		return Script(words(vs))
	}
	return ScriptNoSrc(words(vs))
}

func words(vs []core.Value) string {
	s := ""
	for i, v := range vs {
		if i > 0 {
			s += " "
		}
		s += word1(v)
	}
	return s
}

func assertOK(r core.Result, label string) bool {
	sym.Assert(r.Code == core.ResultCode_OK, label+": ok")
	return r.Code == core.ResultCode_OK
}

func assertError(r core.Result, label string) {
	sym.Assert(r.Code == core.ResultCode_ERROR, label)
	if r.Code == core.ResultCode_ERROR {
		_, ok := r.Value.(core.StringValue)
		sym.Assert(ok, label+": has a message")
	}
}

// ---- lists ----

// ListEditing: range, remove, insert and replace with any 64-bit indexes.
func ListEditing() {
	scope := NewRoot(nil)
	n := sym.Choice("n", sym.Param("N", 3)+1)
	vs := tags("v", n)
	recv := sequence("recv", vs)
	intact := func(string) {}
	if sym.Bool("part") {
		recv, intact = part(scope, vs)
	}
	first := sym.Int64("first")
	op := sym.Choice("op", 6)
	var want []core.Value
	var r core.Result
	switch op {
	case 5:
		args := []core.Value{S("list"), recv, S("append")}
		want = append(want, vs...)
		for i := sym.Choice("lists", 3); i > 0; i-- {
			ins := tags("w"+letter(i), sym.Choice("m", 4))
			args = append(args, sequence("ins", ins))
			want = append(want, ins...)
		}
		r = Call(scope, args...)
	case 0:
		r = Call(scope, S("list"), recv, S("range"), core.INT(first))
		for i, v := range vs {
			if int64(i) >= first {
				want = append(want, v)
			}
		}
	case 1:
		last := sym.Int64("last")
		r = Call(scope, S("list"), recv, S("range"), core.INT(first), core.INT(last))
		for i, v := range vs {
			if int64(i) >= first && int64(i) <= last {
				want = append(want, v)
			}
		}
	case 2:
		last := sym.Int64("last")
		r = Call(scope, S("list"), recv, S("remove"), core.INT(first), core.INT(last))
		for i, v := range vs {
			if !(int64(i) >= first && int64(i) <= last) {
				want = append(want, v)
			}
		}
	case 3:
		ins := tags("w", sym.Choice("m", 3))
		r = Call(scope, S("list"), recv, S("insert"), core.INT(first), sequence("ins", ins))
		done := false
		for i, v := range vs {
			if !done && int64(i) >= first {
				want = append(want, ins...)
				done = true
			}
			want = append(want, v)
		}
		if !done {
			want = append(want, ins...)
		}
	case 4:
		last := sym.Int64("last")
		ins := tags("w", sym.Choice("m", 3))
		r = Call(scope, S("list"), recv, S("replace"), core.INT(first), core.INT(last), sequence("ins", ins))
		done := false
		for i, v := range vs {
			if !done && int64(i) >= first {
				want = append(want, ins...)
				done = true
			}
			if !(int64(i) >= first && int64(i) <= last) {
				want = append(want, v)
			}
		}
		if !done {
			want = append(want, ins...)
		}
	}
	if assertOK(r, "list editing") {
		got, ok := IsList(r.Value)
		sym.Assert(ok, "list editing gives a list")
		sym.Assert(SameAll(got, want), "edited list")
	}
	got, ok := refSequence(recv)
	if sym.Param("MIXED", 0) > 0 && recv.Type() == core.ValueType_SCRIPT {
		var ra core.Result
		ra, got = hel.ValueToArray(recv)
		ok = ra.Code == core.ResultCode_OK
	}
	sym.Assert(ok && SameAll(got, vs), "the receiver is unchanged")
	intact("list editing leaves other lists as they were")
	Observe("r", r)
	sym.Reach("end")
}

// refSequence is the list reading of a value.
func refSequence(v core.Value) ([]core.Value, bool) {
	switch x := v.(type) {
	case core.ListValue:
		return x.Values, true
	case core.TupleValue:
		return x.Values, true
	case core.ScriptValue:
		var out []core.Value
		for _, s := range x.Script.Sentences {
			for _, w := range s.Words {
				if w.Value != nil {
					out = append(out, w.Value)
					continue
				}
				if len(w.Word.Morphemes) != 1 {
					return nil, false
				}
				switch m := w.Word.Morphemes[0].(type) {
				case core.LiteralMorpheme:
					out = append(out, S(m.Value))
				default:
					return nil, false
				}
			}
		}
		return out, true
	}
	return nil, false
}

// mixed is an argument of any kind; integers are symbolic in lo..hi.
func mixed(name string, lo, hi int) core.Value {
	switch sym.Choice(name, 12) {
	case 0:
		return core.INT(int64(sym.Int(name+".i", lo, hi)))
	case 1:
		return S("1")
	case 2:
		return S("zz")
	case 3:
		return L(S("a"), S("b"))
	case 4:
		return T(S("c"))
	case 5:
		return Script("d e f")
	case 6:
		return Script("d $e")
	case 7:
		return core.NIL
	case 8:
		return core.DICT(map[string]core.Value{"k": S("v")})
	case 9:
		return core.TRUE
	case 10:
		return anArgspec
	}
	return L()
}

var _, anArgspec = hel.ArgspecValueFromValue(T(S("p"), S("?q")))

func refInt(v core.Value) (int64, bool) {
	switch x := v.(type) {
	case core.IntegerValue:
		return x.Value, true
	case core.StringValue:
		if x.Value == "1" {
			return 1, true
		}
	}
	return 0, false
}

var listOps = []string{"length", "at", "range", "append", "remove", "insert", "replace"}

// Elements: at on lists, tuples and strings, as a subcommand, a selector or
// both, with any index, with and without a default.
func Elements() {
	scope := NewRoot(nil)
	n := sym.Choice("n", sym.Param("N", 3)+1)
	kind := sym.Choice("kind", 4)
	vs := tags("v", n)
	var recv core.Value
	str := ""
	cmd := "list"
	switch kind {
	case 0:
		recv = L(vs...)
	case 1:
		recv = T(vs...)
		cmd = "tuple"
	case 2:
		str = sym.Bytes("s", n)
		recv = S(str)
		cmd = "string"
	case 3:
		recv = T(vs...)
	}
	// the index
	var index core.Value
	var at int64
	ok := true
	switch sym.Choice("index", 4) {
	case 0:
		at = sym.Int64("i")
		index = core.INT(at)
	case 1:
		t := sym.BytesOf("text", 1+sym.Choice("len", sym.Param("TEXT", 2)), "0123-+a. ")
		at, ok = integerText(t)
		index = S(t)
	case 2:
		index = mixed("any", -1, 4)
		at, ok = refInt(index)
	case 3:
		d := sym.Choice("real", 5)
		index = core.REAL([...]float64{0, 1, 1.5, -1, 1e30}[d])
		at, ok = [...]int64{0, 1, 0, -1, 0}[d], d != 2 && d != 4
	}
	Def(scope, "l", recv)
	Def(scope, "i", index)
	src := cmd + " $l at $i"
	var def core.Value
	switch sym.Choice("default", 4) {
	case 1:
		def = S("d")
		src += " d"
	case 2:
		def = core.NIL
		src += " []"
	case 3:
		sym.Assume(kind != 1 && kind != 3 && index.Type() != core.ValueType_TUPLE)
		src = "idem $l[idem $i]"
	}
	r := Run(scope, src)
	Observe("r", r)
	switch {
	case !ok:
		assertError(r, "invalid indexes are errors")
		sym.Reach("invalid")
	case at >= 0 && at < int64(n):
		if kind == 2 {
			c, isStr := r.Value.(core.StringValue)
			sym.Assert(r.Code == core.ResultCode_OK && isStr && len(c.Value) == 1 && c.Value[0] == str[at], "the character")
		} else {
			sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, vs[at]), "the element")
		}
		sym.Reach("element")
	case def != nil:
		sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, def), "the default")
		sym.Reach("default")
	default:
		assertError(r, "out of range")
		sym.Reach("out of range")
	}
}

// integerText is the integer written in t: digits with an optional sign.
func integerText(t string) (int64, bool) {
	neg := t[0] == '-'
	if neg || t[0] == '+' {
		t = t[1:]
	}
	if len(t) == 0 {
		return 0, false
	}
	v := int64(0)
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return 0, false
		}
		v = v*10 + int64(t[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, true
}

// ListArguments: every list subcommand on every number and kind of arguments.
func ListArguments() {
	scope := NewRoot(nil)
	op := listOps[sym.Choice("op", len(listOps))]
	n := sym.Choice("n", sym.Param("N", 2)+1)
	recv := mixed("recv", 0, 0)
	args := make([]core.Value, n)
	for i := range args {
		args[i] = mixed("arg", -1, 3)
	}
	r := Call(scope, append([]core.Value{S("list"), recv, S(op)}, args...)...)
	vs, ok := refSequence(recv)
	var want core.Value
	ints := func(k int) (int64, bool) {
		if k >= len(args) {
			return 0, false
		}
		return refInt(args[k])
	}
	seq := func(k int) ([]core.Value, bool) {
		if k >= len(args) {
			return nil, false
		}
		return refSequence(args[k])
	}
	switch op {
	case "length":
		ok = ok && n == 0
		want = I(len(vs))
	case "at":
		i, iok := ints(0)
		ok = ok && iok && (n == 1 || n == 2)
		if ok {
			switch {
			case i >= 0 && i < int64(len(vs)):
				want = vs[i]
			case n == 2:
				want = args[1]
			default:
				ok = false
			}
		}
	case "append":
		out := append([]core.Value{}, vs...)
		for k := range args {
			s, sok := seq(k)
			ok = ok && sok
			out = append(out, s...)
		}
		want = L(out...)
	case "range":
		f, fok := ints(0)
		l, lok := int64(len(vs)), true
		if n > 1 {
			l, lok = ints(1)
		}
		ok = ok && fok && lok && (n == 1 || n == 2)
		var out []core.Value
		for i, v := range vs {
			if int64(i) >= f && int64(i) <= l {
				out = append(out, v)
			}
		}
		want = L(out...)
	case "remove", "insert", "replace":
		f, fok := ints(0)
		l, lok := f-1, true
		var ins []core.Value
		if op != "insert" {
			l, lok = ints(1)
		}
		need, iok := 2, true
		switch op {
		case "insert":
			ins, iok = seq(1)
		case "replace":
			ins, iok = seq(2)
			need = 3
		}
		ok = ok && fok && lok && iok && n == need
		var out []core.Value
		done := false
		for i, v := range vs {
			if !done && int64(i) >= f {
				out = append(out, ins...)
				done = true
			}
			if !(int64(i) >= f && int64(i) <= l) {
				out = append(out, v)
			}
		}
		if !done {
			out = append(out, ins...)
		}
		want = L(out...)
	}
	Observe("r", r)
	if ok {
		sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, want), "list subcommand result")
		sym.Reach("ok")
	} else {
		assertError(r, "invalid list arguments are errors")
		sym.Reach("error")
	}
}

// ListSort: sorting gives the ordered permutation of the elements.
func ListSort() {
	scope := NewRoot(nil)
	n := sym.Choice("n", sym.Param("N", 4)+1)
	keys := make([]int, n)
	vs := make([]core.Value, n)
	custom := sym.Bool("comparator")
	if custom {
		for i := range vs {
			keys[i] = sym.Int("key", 0, 3)
			vs[i] = T(core.INT(int64(keys[i])), S(string(rune('a'+i))))
		}
		Reg(scope, "cmp", func(args []core.Value, _ *hel.Scope) core.Result {
			a := args[1].(core.TupleValue).Values[0].(core.IntegerValue).Value
			b := args[2].(core.TupleValue).Values[0].(core.IntegerValue).Value
			return core.OK(core.INT(a - b))
		})
	} else {
		for i := range vs {
			vs[i] = S(sym.BytesOf("s", sym.Choice("len", sym.Param("S", 1)+1), "ab\xff"))
		}
	}
	var r core.Result
	recv, intact := part(scope, vs)
	if custom {
		r = Call(scope, S("list"), recv, S("sort"), S("cmp"))
	} else {
		r = Call(scope, S("list"), recv, S("sort"))
	}
	intact("sorting leaves the list as it was")
	if !assertOK(r, "sort") {
		return
	}
	got, ok := IsList(r.Value)
	sym.Assert(ok && len(got) == n, "sorting keeps the number of elements")
	used := make([]bool, n)
	for i, v := range got {
		found := false
		for j, w := range vs {
			if !found && !used[j] && Same(v, w) {
				used[j] = true
				found = true
			}
		}
		sym.Assert(found, "sorting is a permutation")
		if i > 0 {
			if custom {
				a := got[i-1].(core.TupleValue).Values[0].(core.IntegerValue).Value
				b := v.(core.TupleValue).Values[0].(core.IntegerValue).Value
				sym.Assert(a <= b, "sorted by the comparator")
			} else {
				sym.Assert(got[i-1].(core.StringValue).Value <= v.(core.StringValue).Value, "sorted by text")
			}
		}
	}
	sym.Reach("end")
}

// ListSortErrors: a comparator that fails makes the sort fail.
func ListSortErrors() {
	scope := NewRoot(nil)
	n := sym.Choice("n", sym.Param("N", 3)+1)
	vs := tags("v", n)
	failed := false
	Reg(scope, "cmp", func(args []core.Value, _ *hel.Scope) core.Result {
		switch sym.Choice("r", 4) {
		case 0:
			return core.OK(core.INT(-1))
		case 1:
			return core.OK(core.INT(1))
		case 2:
			failed = true
			return core.ERROR("failed")
		}
		failed = true
		return core.OK(S("x"))
	})
	var r core.Result
	if sym.Bool("text") {
		if n > 0 {
			vs[n-1] = L()
			failed = n > 1
		}
		r = Call(scope, S("list"), L(vs...), S("sort"))
	} else {
		r = Call(scope, S("list"), L(vs...), S("sort"), S("cmp"))
	}
	if failed {
		assertError(r, "a failed comparison is an error")
		sym.Reach("failed")
	} else {
		sym.Assert(r.Code == core.ResultCode_OK, "sort succeeds")
		sym.Reach("sorted")
	}
}

// ---- dictionaries ----

// entry lists stand for dictionaries in insertion order.
type entries struct {
	keys []string
	vals []core.Value
}

func (e *entries) find(k string) int {
	for i, x := range e.keys {
		if x == k {
			return i
		}
	}
	return -1
}
func (e *entries) add(k string, v core.Value) {
	if i := e.find(k); i >= 0 {
		e.vals[i] = v
		return
	}
	e.keys = append(e.keys, k)
	e.vals = append(e.vals, v)
}
func (e *entries) remove(k string) {
	if i := e.find(k); i >= 0 {
		e.keys = append(append([]string{}, e.keys[:i]...), e.keys[i+1:]...)
		e.vals = append(append([]core.Value{}, e.vals[:i]...), e.vals[i+1:]...)
	}
}
func (e *entries) clone() *entries {
	return &entries{append([]string{}, e.keys...), append([]core.Value{}, e.vals...)}
}
func (e *entries) is(v core.Value) bool {
	d, ok := IsDict(v)
	if !ok || len(d) != len(e.keys) {
		return false
	}
	for i, k := range e.keys {
		w, ok := d[k]
		if !ok || !Same(w, e.vals[i]) {
			return false
		}
	}
	return true
}

func dictKey(name string) string { return sym.BytesOf(name, 1, "abc") }

// anyDict is a dictionary of up to n entries in any form accepted as such.
func anyDict(name string, n int) (core.Value, *entries) {
	e := &entries{}
	var flat []core.Value
	n = sym.Choice(name+".n", n+1)
	for i := 0; i < n; i++ {
		k := dictKey(name + ".k")
		v := mixedTag(i, name+string(rune('0'+i)))
		e.add(k, v)
		flat = append(flat, S(k), v)
	}
	switch sym.Choice(name+".form", 4) {
	case 0:
		m := map[string]core.Value{}
		for i, k := range e.keys {
			m[k] = e.vals[i]
		}
		return core.DICT(m), e
	case 1:
		return L(flat...), e
	case 2:
		return T(flat...), e
	}
	s := ""
	for _, v := range flat {
		s += word1(v) + " "
	}
	return Script(s), e
}

// DictCommands: every dictionary subcommand against an association list,
// whatever the iteration order of maps.
func DictCommands() {
	scope := NewRoot(nil)
	sym.AnyMapOrder(true)
	recv, e := anyDict("d", sym.Param("N", 2))
	before := e.clone()
	op := sym.Choice("op", 11)
	var r core.Result
	D := S("dict")
	switch op {
	case 0:
		r = Call(scope, D, recv)
		sym.Assert(r.Code == core.ResultCode_OK && e.is(r.Value), "dictionary conversion")
	case 1:
		r = Call(scope, D, recv, S("size"))
		sym.Assert(r.Code == core.ResultCode_OK && IsInt(r.Value, int64(len(e.keys))), "dictionary size")
	case 2:
		k := dictKey("k")
		r = Call(scope, D, recv, S("has"), S(k))
		sym.Assert(r.Code == core.ResultCode_OK && IsBool(r.Value, e.find(k) >= 0), "dictionary membership")
	case 3:
		k := dictKey("k")
		if sym.Bool("default") {
			dflt := mixedTag(0, "dflt")
			r = Call(scope, D, recv, S("get"), S(k), dflt)
			i := e.find(k)
			sym.Assert(r.Code == core.ResultCode_OK && (i >= 0 && Same(r.Value, e.vals[i]) || i < 0 && Same(r.Value, dflt)), "dictionary value or default")
		} else {
			r = Call(scope, D, recv, S("get"), S(k))
			if i := e.find(k); i >= 0 {
				sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, e.vals[i]), "dictionary value")
			} else {
				sym.Assert(r.Code == core.ResultCode_ERROR && IsStr(r.Value, "unknown key \""+k+"\""), "unknown key")
			}
		}
	case 4:
		n := sym.Choice("keys", sym.Param("KEYS", 3))
		var ks, want []core.Value
		ok := true
		for i := 0; i < n; i++ {
			k := dictKey("k")
			ks = append(ks, S(k))
			if j := e.find(k); j >= 0 {
				want = append(want, e.vals[j])
			} else {
				ok = false
			}
		}
		r = Call(scope, D, recv, S("get"), T(ks...))
		if ok {
			t, isT := IsTuple(r.Value)
			sym.Assert(r.Code == core.ResultCode_OK && isT && SameAll(t, want), "dictionary values of a key tuple")
		} else {
			assertError(r, "unknown key in a tuple")
		}
	case 5:
		k := dictKey("k")
		v := mixedTag(0, "new")
		r = Call(scope, D, recv, S("add"), S(k), v)
		e.add(k, v)
		sym.Assert(r.Code == core.ResultCode_OK && e.is(r.Value), "added entry")
	case 6:
		n := sym.Choice("keys", 3)
		args := []core.Value{D, recv, S("remove")}
		for i := 0; i < n; i++ {
			k := dictKey("k")
			args = append(args, S(k))
			e.remove(k)
		}
		r = Call(scope, args...)
		sym.Assert(r.Code == core.ResultCode_OK && e.is(r.Value), "removed entries")
	case 7:
		n := sym.Choice("dicts", sym.Param("M", 2)+1)
		args := []core.Value{D, recv, S("merge")}
		for i := 0; i < n; i++ {
			d, f := anyDict("m", sym.Param("E", 2))
			args = append(args, d)
			for j, k := range f.keys {
				e.add(k, f.vals[j])
			}
		}
		r = Call(scope, args...)
		sym.Assert(r.Code == core.ResultCode_OK && e.is(r.Value), "merged entries")
	case 8, 9, 10:
		r = Call(scope, D, recv, S([...]string{"keys", "values", "entries"}[op-8]))
		vs, ok := IsList(r.Value)
		sym.Assert(r.Code == core.ResultCode_OK && ok && len(vs) == len(e.keys), "enumeration size")
		seen := make([]bool, len(e.keys))
		for _, v := range vs {
			found := false
			for i, k := range e.keys {
				w := S(k)
				if op == 9 {
					w = e.vals[i]
				} else if op == 10 {
					w = T(S(k), e.vals[i])
				}
				if !found && !seen[i] && Same(v, w) {
					seen[i] = true
					found = true
				}
			}
			sym.Assert(found, "every entry is enumerated once")
		}
	}
	if d, ok := IsDict(recv); ok {
		sym.Assert(before.is(core.DICT(d)), "the receiver is unchanged")
	}
	sym.Observe("code", Code(r))
	sym.Reach("end")
}

// refMap is the dictionary reading of a value.
func refMap(v core.Value) (map[string]core.Value, bool) {
	if d, ok := IsDict(v); ok {
		return d, true
	}
	vs, ok := refSequence(v)
	if !ok || len(vs)%2 != 0 {
		return nil, false
	}
	m := map[string]core.Value{}
	for i := 0; i < len(vs); i += 2 {
		k, ok := vs[i].(core.StringValue)
		if !ok {
			return nil, false
		}
		m[k.Value] = vs[i+1]
	}
	return m, true
}

func refText(v core.Value) (string, bool) {
	switch x := v.(type) {
	case core.StringValue:
		return x.Value, true
	case core.BooleanValue:
		if x.Value {
			return "true", true
		}
		return "false", true
	case core.IntegerValue:
		return "1", true // harness integers used as keys are 1
	case core.ScriptValue:
		if x.Source != nil {
			return *x.Source, true
		}
	}
	return "", false
}

var dictOps = []string{"size", "has", "get", "add", "remove", "merge", "keys", "values", "entries"}

// DictArguments: every dictionary subcommand on every number and kind of
// arguments: a result exactly when the arguments are valid, else an error.
func DictArguments() {
	scope := NewRoot(nil)
	op := dictOps[sym.Choice("op", len(dictOps))]
	n := sym.Choice("n", sym.Param("N", 2)+1)
	recv := mixed("recv", 1, 1)
	args := make([]core.Value, n)
	for i := range args {
		args[i] = mixed("arg", 1, 1)
	}
	r := Call(scope, append([]core.Value{S("dict"), recv, S(op)}, args...)...)
	m, ok := refMap(recv)
	key := func(k int) string {
		if k >= n {
			return ""
		}
		s, kok := refText(args[k])
		ok = ok && kok
		return s
	}
	var want core.Value
	switch op {
	case "size", "keys", "values", "entries":
		ok = ok && n == 0
	case "has":
		k := key(0)
		ok = ok && n == 1
		if ok {
			_, has := m[k]
			want = core.BOOL(has)
		}
	case "get":
		ok = ok && (n == 1 || n == 2)
		if !ok {
			break
		}
		if t, isT := IsTuple(args[0]); isT {
			ok = n == 1
			var out []core.Value
			for _, x := range t {
				k, kok := refText(x)
				v, has := m[k]
				ok = ok && kok && has
				out = append(out, v)
			}
			want = T(out...)
			break
		}
		k := key(0)
		if ok {
			v, has := m[k]
			want = v
			if !has {
				ok = n == 2
				if ok {
					want = args[1]
				}
			}
		}
	case "add":
		k := key(0)
		ok = ok && n == 2
		if ok {
			out := map[string]core.Value{}
			for x, v := range m {
				out[x] = v
			}
			out[k] = args[1]
			want = core.DICT(out)
		}
	case "remove":
		out := map[string]core.Value{}
		for x, v := range m {
			out[x] = v
		}
		for i := range args {
			delete(out, key(i))
		}
		want = core.DICT(out)
	case "merge":
		out := map[string]core.Value{}
		for x, v := range m {
			out[x] = v
		}
		for _, a := range args {
			am, aok := refMap(a)
			ok = ok && aok
			for x, v := range am {
				out[x] = v
			}
		}
		want = core.DICT(out)
	}
	Observe("r", r)
	if ok {
		sym.Assert(r.Code == core.ResultCode_OK && (want == nil || Same(r.Value, want)), "dictionary subcommand result")
		sym.Reach("ok")
	} else {
		assertError(r, "invalid dictionary arguments are errors")
		sym.Reach("error")
	}
}

// ---- strings ----

// StringEditing: length, range, append, remove, insert and replace of any
// bytes with any 64-bit indexes.
func StringEditing() {
	scope := NewRoot(nil)
	n := sym.Choice("n", sym.Param("N", 3)+1)
	s := sym.Bytes("s", n)
	op := sym.Choice("op", 7)
	ST := S("string")
	var r core.Result
	want := ""
	switch op {
	case 0:
		r = Call(scope, ST, S(s), S("length"))
		sym.Assert(r.Code == core.ResultCode_OK && IsInt(r.Value, int64(n)), "string length")
		return
	case 1:
		first := sym.Int64("first")
		r = Call(scope, ST, S(s), S("range"), core.INT(first))
		for i := 0; i < n; i++ {
			if int64(i) >= first {
				want += s[i : i+1]
			}
		}
	case 2:
		first, last := sym.Int64("first"), sym.Int64("last")
		r = Call(scope, ST, S(s), S("range"), core.INT(first), core.INT(last))
		for i := 0; i < n; i++ {
			if int64(i) >= first && int64(i) <= last {
				want += s[i : i+1]
			}
		}
	case 3:
		a, b := sym.Bytes("a", 1), sym.Bytes("b", sym.Choice("m", 2))
		want = s + a + b
		r = Call(scope, ST, S(s), S("append"), S(a), S(b))
	case 4:
		first, last := sym.Int64("first"), sym.Int64("last")
		r = Call(scope, ST, S(s), S("remove"), core.INT(first), core.INT(last))
		for i := 0; i < n; i++ {
			if !(int64(i) >= first && int64(i) <= last) {
				want += s[i : i+1]
			}
		}
	case 5, 6:
		first := sym.Int64("first")
		ins := sym.Bytes("ins", sym.Choice("m", 3))
		last := first - 1
		if op == 5 {
			r = Call(scope, ST, S(s), S("insert"), core.INT(first), S(ins))
		} else {
			last = sym.Int64("last")
			r = Call(scope, ST, S(s), S("replace"), core.INT(first), core.INT(last), S(ins))
		}
		done := false
		for i := 0; i < n; i++ {
			if !done && int64(i) >= first {
				want += ins
				done = true
			}
			if op == 5 || !(int64(i) >= first && int64(i) <= last) {
				want += s[i : i+1]
			}
		}
		if !done {
			want += ins
		}
	}
	sym.Assert(r.Code == core.ResultCode_OK && IsStr(r.Value, want), "edited string")
	sym.Reach("end")
}

// StringComparison: the six comparisons are the byte-wise order of the texts.
func StringComparison() {
	scope := NewRoot(nil)
	n := sym.Param("N", 2)
	a := sym.Bytes("a", sym.Choice("na", n+1))
	b := sym.Bytes("b", sym.Choice("nb", n+1))
	lt, eq := false, true
	for i := 0; eq && i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			eq = false
			lt = a[i] < b[i]
		}
	}
	if eq && len(a) != len(b) {
		eq = false
		lt = len(a) < len(b)
	}
	for _, op := range []string{"==", "!=", "<", "<=", ">", ">="} {
		var want bool
		switch op {
		case "==":
			want = eq
		case "!=":
			want = !eq
		case "<":
			want = lt
		case "<=":
			want = lt || eq
		case ">":
			want = !lt && !eq
		case ">=":
			want = !lt
		}
		r := Call(scope, S("string"), S(a), S(op), S(b))
		sym.Assert(r.Code == core.ResultCode_OK && IsBool(r.Value, want), "string comparison "+op)
	}
	sym.ObserveBool("lt", lt)
	sym.Reach("end")
}

// StringArguments: every string subcommand on every number and kind of
// arguments gives a result exactly when they are valid, else an error.
func StringArguments() {
	scope := NewRoot(nil)
	ops := []string{"length", "at", "range", "append", "remove", "insert", "replace", "==", "!=", "<", "<=", ">", ">="}
	op := ops[sym.Choice("op", len(ops))]
	n := sym.Choice("n", sym.Param("N", 2)+1)
	recv := mixed("recv", 1, 1)
	args := make([]core.Value, n)
	for i := range args {
		args[i] = mixed("arg", 1, 1)
	}
	r := Call(scope, append([]core.Value{S("string"), recv, S(op)}, args...)...)
	s, ok := refText(recv)
	text := func(k int) string {
		if k >= n {
			return ""
		}
		t, tok := refText(args[k])
		ok = ok && tok
		return t
	}
	num := func(k int) {
		if k < n {
			_, iok := refInt(args[k])
			ok = ok && iok
		}
	}
	same := false
	switch op {
	case "length":
		ok = ok && n == 0
	case "at":
		num(0)
		ok = ok && (n == 2 || n == 1 && len(s) > 1)
	case "range":
		num(0)
		num(1)
		ok = ok && (n == 1 || n == 2)
	case "append":
		for i := range args {
			text(i)
		}
	case "remove":
		num(0)
		num(1)
		ok = ok && n == 2
	case "insert":
		num(0)
		text(1)
		ok = ok && n == 2
	case "replace":
		num(0)
		num(1)
		text(2)
		ok = ok && n == 3
	default:
		t := text(0)
		ok = ok && n == 1
		same = s == t
		// identical values with no text also compare equal
		if n == 1 && !ok && IsNil(recv) && IsNil(args[0]) {
			ok, same = true, true
		}
		if ok && (op == "==" || op == "!=") {
			sym.Assert(r.Code == core.ResultCode_OK && IsBool(r.Value, same == (op == "==")), "string equality")
		}
	}
	Observe("r", r)
	if ok {
		sym.Assert(r.Code == core.ResultCode_OK, "valid string arguments give a result")
		sym.Reach("ok")
	} else {
		assertError(r, "invalid string arguments are errors")
		sym.Reach("error")
	}
}

// ---- immutability ----

// CollectionHistories: values obtained along any history of collection
// commands are never changed by later commands.
func CollectionHistories() {
	scope := NewRoot(nil)
	src := Script("x y z w")
	pool := []core.Value{L(tags("p", 3)...), T(tags("q", 2)...), src,
		core.DICT(map[string]core.Value{"a": S("1"), "b": S("2")}), core.DICT(map[string]core.Value{"a": S("0")}), S("ab")}
	snaps := make([]core.Value, len(pool))
	for i, v := range pool {
		snaps[i] = snapshot(v)
	}
	k := sym.Param("K", 2)
	Reg(scope, "cmp", func(args []core.Value, _ *hel.Scope) core.Result {
		return core.OK(core.INT(-1))
	})
	for step := 0; step < k; step++ {
		v := pool[sym.Choice("recv", len(pool))]
		arg := func() core.Value { return pool[sym.Choice("arg", len(pool))] }
		index := func() core.Value { return I([]int{0, 1, 9}[sym.Choice("index", 3)]) }
		name := "value" + string(rune('0'+step))
		var r core.Result
		switch sym.Choice("op", 17) {
		case 0:
			r = Call(scope, S("list"), v)
		case 1:
			r = Call(scope, S("list"), v, S("range"), index(), I(1))
		case 2:
			r = Call(scope, S("list"), v, S("append"), arg())
		case 3:
			r = Call(scope, S("list"), v, S("remove"), index(), I(1))
		case 4:
			r = Call(scope, S("list"), v, S("insert"), index(), arg())
		case 5:
			i := index()
			r = Call(scope, S("list"), v, S("replace"), i, i, arg())
		case 6:
			r = Call(scope, S("list"), v, S("sort"), S("cmp"))
		case 7:
			r = Call(scope, S("tuple"), v)
		case 8:
			r = Call(scope, S("dict"), v)
		case 9:
			r = Call(scope, S("dict"), v, S("add"), S("a"), S("new"))
		case 10:
			r = Call(scope, S("dict"), v, S("remove"), S("a"))
		case 11:
			r = Call(scope, S("dict"), v, S("merge"), arg())
		case 12:
			Def(scope, name, v)
			r = Run(scope, "list ($*[list $"+name+"] more) append (a b)")
		case 13:
			Def(scope, name, v)
			r = Run(scope, "idem ($"+name+" a)")
		case 14:
			r = Call(scope, S("string"), v, S("append"), S("c"))
		case 15:
			r = Call(scope, S("list"), v, S("foreach"), S("e"), Script("idem (a b c d)"))
		case 16:
			Def(scope, name, v)
			r = Run(scope, "macro m {*args} {idem $args}; m $*"+name+" x; idem $[m $*"+name+"]")
		}
		if r.Code == core.ResultCode_OK {
			pool = append(pool, r.Value)
			snaps = append(snaps, snapshot(r.Value))
		}
		for i := range pool {
			sym.Assert(Same(pool[i], snaps[i]), "values do not change")
			if s, ok := pool[i].(core.ScriptValue); ok && s.Cache.Values != nil {
				want, _ := refSequence(s)
				sym.Assert(SameAll(s.Cache.Values, want), "cached script values do not change")
			}
		}
	}
	sym.ObserveInt("n", len(pool))
	sym.Reach("end")
}

// part is a list that the list command cut out of a longer one, and the check
// that both are left as they were.
func part(scope *hel.Scope, vs []core.Value) (core.Value, func(label string)) {
	whole := L(append(append([]core.Value{S("first")}, vs...), S("last"), S("end"))...)
	r := Call(scope, S("list"), whole, S("range"), I(1), I(len(vs)))
	if len(vs) == 0 {
		r = Call(scope, S("list"), whole, S("range"), I(9))
	}
	recv := r.Value
	wholeBefore, before := snapshot(whole), snapshot(L(vs...))
	return recv, func(label string) {
		sym.Assert(Same(whole, wholeBefore) && Same(recv, before), label)
	}
}

// snapshot is a deep copy.
func snapshot(v core.Value) core.Value {
	switch x := v.(type) {
	case core.ListValue:
		return L(snapAll(x.Values)...)
	case core.TupleValue:
		return T(snapAll(x.Values)...)
	case core.DictionaryValue:
		m := map[string]core.Value{}
		for k, e := range x.Map {
			m[k] = snapshot(e)
		}
		return core.DICT(m)
	}
	return v
}

func snapAll(vs []core.Value) []core.Value {
	out := make([]core.Value, len(vs))
	for i, v := range vs {
		out[i] = snapshot(v)
	}
	return out
}

// ---- iteration ----

// step records what a loop body saw and ends it with an arbitrary code.
type stepper struct {
	seen  []core.Value
	codes []core.Result
}

// Foreach: list and dictionary iteration with bodies ending in arbitrary codes.
func Foreach() {
	scope := NewRoot(nil)
	n := sym.Choice("n", sym.Param("N", 3)+1)
	dict := sym.Bool("dict")
	index := sym.Bool("index")
	shape := sym.Choice("shape", 3) // name, (name), (a b)
	var seq core.Value
	items := make([]core.Value, n)
	if dict {
		if n > 1 {
			n = 1
			items = items[:1]
		}
		m := map[string]core.Value{}
		for i := range items {
			items[i] = T(S("k"), S("v"))
			m["k"] = S("v")
		}
		seq = core.DICT(m)
	} else {
		for i := range items {
			switch sym.Choice("item", 4) {
			case 3:
				items[i] = core.NIL
			case 0:
				items[i] = S("i" + string(rune('0'+i)))
			case 1:
				items[i] = T(S("i"), S(string(rune('0'+i))))
			case 2:
				items[i] = T(S("solo"))
			}
		}
		seq = sequence2("seq", items)
	}
	var st stepper
	var wantSeen []core.Value
	Reg(scope, "step", func(args []core.Value, _ *hel.Scope) core.Result {
		st.seen = append(st.seen, T(append([]core.Value{}, args[1:]...)...))
		c := sym.Int("code", 0, int(core.ResultCode_CUSTOM))
		r := core.Result{Code: core.ResultCode(c), Value: mixedTag(len(st.seen), "r"+letter(len(st.seen)))}
		if r.Code == core.ResultCode_CUSTOM {
			r.Data = CustomCode
		}
		sym.Assume(r.Code != core.ResultCode_YIELD)
		st.codes = append(st.codes, r)
		return r
	})
	vars := [...]string{"$e", "$e", "$a $b"}[shape]
	args := []core.Value{S("list"), seq, S("foreach")}
	if dict {
		args[0] = S("dict")
	}
	if index {
		args = append(args, S("i"))
		vars = "$i " + vars
	}
	switch shape {
	case 0:
		args = append(args, S("e"))
	case 1:
		args = append(args, T(S("e")))
	case 2:
		args = append(args, T(S("a"), S("b")))
	}
	args = append(args, Script("step "+vars))
	scope.SetNamedVariable("outer", S("kept"))
	r := Call(scope, args...)
	// reference
	want := core.OK(core.NIL)
	k := 0
loop:
	for i, it := range items {
		var bound []core.Value
		if index {
			bound = append(bound, core.INT(int64(i)))
		}
		switch shape {
		case 0:
			bound = append(bound, it)
		default:
			t, ok := IsTuple(it)
			if !ok || len(t) < shape {
				want = core.ERROR("bad value shape")
				break loop
			}
			bound = append(bound, t[:shape]...)
		}
		wantSeen = append(wantSeen, T(bound...))
		if k >= len(st.codes) {
			sym.Fail("every element is visited until the loop ends")
			return
		}
		c := st.codes[k]
		k++
		switch c.Code {
		case core.ResultCode_OK:
			want = core.OK(c.Value)
		case core.ResultCode_BREAK:
			break loop
		case core.ResultCode_CONTINUE:
		default:
			want = c
			break loop
		}
	}
	sym.Assert(len(st.codes) == k, "the body runs once per element until the loop ends")
	sym.Assert(SameAll(st.seen, wantSeen), "the body sees each element in order")
	sym.Assert(r.Code == want.Code && Same(r.Value, want.Value), "loop result")
	for _, name := range []string{"e", "a", "b", "i"} {
		sym.Assert(scope.ResolveVariable(name) == nil, "loop locals do not leak")
	}
	Observe("r", r)
	sym.Reach("end")
}

func sequence2(name string, vs []core.Value) core.Value {
	if sym.Bool(name) {
		return T(vs...)
	}
	return L(vs...)
}

// CollectionDisplay: lists and dictionaries of arbitrary strings display as
// scripts that rebuild them.
func CollectionDisplay() {
	scope := NewRoot(nil)
	kind := sym.Choice("kind", 4)
	n := sym.Choice("n", sym.Param("E", 2)+1)
	vs := make([]core.Value, n)
	for i := range vs {
		vs[i] = S(sym.BytesOf("s", sym.Choice("len", sym.Param("N", 2)+1), "a \"$(]#"))
	}
	var display core.DisplayFunction
	display = func(d any) string {
		switch x := d.(type) {
		case core.ListValue:
			return hel.DisplayListValue(x, display)
		case core.DictionaryValue:
			return hel.DisplayDictionaryValue(x, display)
		}
		return core.DefaultDisplayFunction(d)
	}
	var v core.Value
	switch kind {
	case 0:
		v = L(vs...)
	case 1:
		v = L(T(vs...), S("x"))
	case 2:
		v = L(L(vs...), L())
	case 3:
		m := map[string]core.Value{}
		for _, e := range vs {
			m[e.(core.StringValue).Value] = e
		}
		v = core.DICT(m)
	}
	text := display(v)
	if kind != 3 {
		sym.Observe("text", text)
	}
	p := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize("idem "+text), nil)
	sym.Assert(p.Success, "displayed collections parse")
	if !p.Success {
		return
	}
	r := scope.PrepareProcess(scope.Compile(*p.Script)).Run()
	sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, v), "displayed collections read back")
	sym.Reach("end")
}

// nest is any nest of collections of up to width items.
func nest(depth, width int) core.Value {
	k := 6
	if depth > 0 {
		k = 9
	}
	var vs []core.Value
	kind := sym.Choice("shape", k)
	if kind >= 6 {
		vs = make([]core.Value, sym.Choice("items", width+1))
		for i := range vs {
			vs[i] = nest(depth-1, width)
		}
	}
	switch kind {
	case 0:
		return S("a")
	case 1:
		return S("")
	case 2:
		return core.NIL
	case 3:
		return S([...]string{"1", "true", "a b", "*"}[sym.Choice("text", 4)])
	case 4:
		return core.QualifiedValue{Source: S("s"), Selectors: []core.Selector{core.KeyedSelector{Keys: []core.Value{S("k"), S("x y")}}}}
	case 5:
		return Script([...]string{"", "a {b} \"c\"", "[d] $e; f"}[sym.Choice("script", 3)])
	case 6:
		return T(vs...)
	case 7:
		return L(vs...)
	}
	m := map[string]core.Value{}
	for i, v := range vs {
		m[[...]string{"k", "", "$x"}[i]] = v
	}
	return core.DICT(m)
}

// sameShape compares values; scripts are compared by their text.
func sameShape(a, b core.Value) bool {
	switch x := a.(type) {
	case core.ScriptValue:
		y, ok := b.(core.ScriptValue)
		return ok && x.Source != nil && y.Source != nil && *x.Source == *y.Source
	case core.TupleValue:
		y, ok := b.(core.TupleValue)
		return ok && sameShapes(x.Values, y.Values)
	case core.ListValue:
		y, ok := b.(core.ListValue)
		return ok && sameShapes(x.Values, y.Values)
	case core.DictionaryValue:
		y, ok := b.(core.DictionaryValue)
		if !ok || len(x.Map) != len(y.Map) {
			return false
		}
		for _, k := range []string{"k", "", "$x"} {
			v, has := x.Map[k]
			w, has2 := y.Map[k]
			if has != has2 || has && !sameShape(v, w) {
				return false
			}
		}
		return true
	}
	return Same(a, b)
}

func sameShapes(a, b []core.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameShape(a[i], b[i]) {
			return false
		}
	}
	return true
}

// CollectionShapes: lists and dictionaries holding any nest of collections,
// scripts, qualified words and strings display as what rebuilds them.
func CollectionShapes() {
	scope := NewRoot(nil)
	var display core.DisplayFunction
	display = func(d any) string {
		switch x := d.(type) {
		case core.ListValue:
			return hel.DisplayListValue(x, display)
		case core.DictionaryValue:
			return hel.DisplayDictionaryValue(x, display)
		}
		return core.DefaultDisplayFunction(d)
	}
	n := sym.Choice("n", sym.Param("W", 2)+1)
	vs := make([]core.Value, n)
	for i := range vs {
		vs[i] = nest(sym.Param("D", 1), sym.Param("W", 2))
	}
	var v core.Value
	text := ""
	if sym.Bool("dict") {
		sym.AnyMapOrder(sym.Param("ORDER", 0) > 0)
		m := map[string]core.Value{}
		for i, e := range vs {
			m[[...]string{"k", "", "$x"}[i]] = e
		}
		v = core.DICT(m)
		text = hel.DisplayDictionaryValue(v.(core.DictionaryValue), display)
	} else {
		v = L(vs...)
		text = hel.DisplayListValue(v.(core.ListValue), display)
	}
	p := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize("idem "+text), nil)
	sym.Assert(p.Success, "displayed collections parse")
	if !p.Success {
		return
	}
	r := scope.PrepareProcess(scope.Compile(*p.Script)).Run()
	sym.Assert(r.Code == core.ResultCode_OK && sameShape(v, r.Value), "displayed collections read back")
	sym.Reach("end")
}
