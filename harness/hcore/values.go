package hcore

import (
	"helena/core"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

func digit(c byte) bool { return c >= '0' && c <= '9' }

// refInteger reads an optional sign and decimal digits that fit 64 bits.
func refInteger(s string) (int64, bool) {
	i, neg := 0, false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		i = 1
	}
	if i == len(s) {
		return 0, false
	}
	// accumulate negatively: the range is larger on that side
	var v int64
	for ; i < len(s); i++ {
		if !digit(s[i]) {
			return 0, false
		}
		d := int64(s[i] - '0')
		if v < -922337203685477580 || v == -922337203685477580 && d > 8 {
			return 0, false
		}
		v = v*10 - d
	}
	if !neg {
		if v == -9223372036854775808 {
			return 0, false
		}
		v = -v
	}
	return v, true
}

func checkInteger(s string) {
	want, ok := refInteger(s)
	r, i := core.ValueToInteger(S(s))
	sym.Assert((r.Code == core.ResultCode_OK) == ok, "exactly the decimal 64-bit integers are accepted")
	sym.Assert(core.StringIsInteger(s) == ok, "the integer predicate agrees with the conversion")
	r2, v := core.IntegerValueFromValue(S(s))
	sym.Assert((r2.Code == core.ResultCode_OK) == ok, "both conversions agree")
	if !ok {
		sym.Assert(r.Code == core.ResultCode_ERROR, "conversion failures are errors")
		sym.Assert(IsStr(r.Value, "invalid integer \""+s+"\""), "conversion error message")
		sym.Reach("rejected")
		return
	}
	sym.Assert(i == want && v.Value == want, "converted value")
	sym.Assert(IsInt(r2.Value, want), "converted result value")
	sym.Reach("accepted")
}

// IntegerStrings: arbitrary strings.
func IntegerStrings() {
	n := sym.Choice("n", sym.Param("N", 3)+1)
	checkInteger(sym.Bytes("s", n))
}

// IntegerBoundary: strings around the ends of the 64-bit range.
func IntegerBoundary() {
	k := sym.Param("K", 3)
	sign := [...]string{"", "-", "+", "0", "-0"}[sym.Choice("sign", 5)]
	base := "9223372036854775807"
	n := sym.Choice("n", k+2)
	s := sign + base[:19-k] + sym.BytesOf("s", n, "0123456789")
	checkInteger(s)
}

// IntegerRoundTrip: the text of an integer reads back as that integer.
func IntegerRoundTrip() {
	var i int64
	if sym.Bool("boundary") {
		// around the powers of ten and the ends of the range
		k := sym.Choice("pow", 20)
		i = 1
		for j := 0; j < k; j++ {
			i *= 10
		}
		if k == 19 {
			i = 9223372036854775807
		}
		i += int64(sym.ConcretizeInt(sym.Int("delta", -1, 1)))
		if sym.Bool("neg") {
			i = -i
		}
	} else {
		i = int64(sym.Int("i", -sym.Param("R", 999), sym.Param("R", 999)))
	}
	r, s := core.ValueToString(core.INT(i))
	sym.Assert(r.Code == core.ResultCode_OK, "integers have a text")
	sym.Assert(core.INT(i).Display(nil) == s, "integers display as their text")
	j, ok := refInteger(s)
	sym.Assert(ok && j == i, "the text of an integer denotes it")
	r, j = core.ValueToInteger(S(s))
	sym.Assert(r.Code == core.ResultCode_OK && j == i, "the text of an integer reads back as it")
	sym.Assert(s[0] != '+' && (s == "0" || s[0] == '-' && s[1] != '0' || s[0] != '-' && s[0] != '0'), "canonical text")
	r, j = core.ValueToInteger(core.INT(i))
	sym.Assert(r.Code == core.ResultCode_OK && j == i, "integers convert to themselves")
	sym.Reach("end")
}

// BooleanStrings: arbitrary strings converted to booleans.
func BooleanStrings() {
	n := sym.Choice("n", sym.Param("N", 6)+1)
	s := sym.Bytes("s", n)
	r, b := core.ValueToBoolean(S(s))
	r2, v := core.BooleanValueFromValue(S(s))
	sym.Assert(r.Code == r2.Code, "both conversions agree")
	switch {
	case s == "true" || s == "false":
		sym.Assert(r.Code == core.ResultCode_OK && b == (s == "true") && v.Value == b && IsBool(r2.Value, b), "true and false are booleans")
		r3, t := core.ValueToString(v)
		sym.Assert(r3.Code == core.ResultCode_OK && t == s && v.Display(nil) == s, "booleans read back")
		sym.Reach("accepted")
	default:
		sym.Assert(r.Code == core.ResultCode_ERROR && IsStr(r.Value, "invalid boolean \""+s+"\""), "nothing else is a boolean")
		sym.Reach("rejected")
	}
}

// kindValue is a value of each kind.
func kindValue(k int) core.Value {
	switch k {
	case 0:
		return core.NIL
	case 1:
		return core.TRUE
	case 2:
		return core.INT(12)
	case 3:
		return core.REAL(0.5)
	case 4:
		return S("12")
	case 5:
		return S("abc")
	case 6:
		return L(S("x"))
	case 7:
		return core.DICT(map[string]core.Value{"a": S("b")})
	case 8:
		return T(S("a"))
	case 9:
		return core.NewScriptValueWithNoSource(core.Script{})
	case 10:
		return core.NewScriptValue(core.Script{}, "7")
	case 11:
		return core.NewCommandValue(fnCmd(nil))
	case 12:
		return core.NewQualifiedValue(S("q"), []core.Selector{core.IndexedSelector{Index: S("1")}})
	case 13:
		return Rec{"r"}
	}
	return nil
}

const valueKinds = 14

// KindConversions: which kinds of values have a text, and what conversions
// give for each.
func KindConversions() {
	k := sym.Choice("kind", valueKinds)
	v := kindValue(k)
	r, s := core.ValueToString(v)
	texts := map[int]string{1: "true", 2: "12", 3: "0.5", 4: "12", 5: "abc", 10: "7"}
	want, has := texts[k]
	sym.Assert((r.Code == core.ResultCode_OK) == has, "which kinds have a text")
	if has {
		sym.Assert(s == want, "text of a value")
	} else {
		sym.Assert(r.Code == core.ResultCode_ERROR && IsStr(r.Value, "value has no string representation"), "no text")
	}
	r, s = core.ValueToStringOrDefault(v, "dflt")
	sym.Assert(r.Code == core.ResultCode_OK && (has && s == want || !has && s == "dflt"), "text or default")
	r, sv := core.StringValueFromValue(v)
	sym.Assert((r.Code == core.ResultCode_OK) == has && (!has || sv.Value == want && IsStr(r.Value, want)), "string conversion")
	r, i := core.ValueToInteger(v)
	isInt := k == 2 || k == 4 || k == 10
	sym.Assert((r.Code == core.ResultCode_OK) == isInt, "which kinds convert to integers")
	sym.Assert(!isInt || i == 12 || k == 10 && i == 7, "integer conversion")
	r, b := core.ValueToBoolean(v)
	sym.Assert((r.Code == core.ResultCode_OK) == (k == 1) && (k != 1 || b), "boolean conversion")
	r, f := core.ValueToFloat(v)
	isNum := isInt || k == 3
	sym.Assert((r.Code == core.ResultCode_OK) == isNum, "which kinds convert to reals")
	sym.Assert(!isNum || f == 12 || k == 10 && f == 7 || k == 3 && f == 0.5, "real conversion")
	r, vs := core.ValueToValues(v)
	sym.Assert((r.Code == core.ResultCode_OK) == (k == 6 || k == 8), "lists and tuples convert to lists")
	if k == 6 || k == 8 {
		sym.Assert(len(vs) == 1, "list conversion")
	}
	sym.Reach("end")
}

// ---- indexing ----

// ListIndexing: any 64-bit index on lists of up to N elements.
func ListIndexing() {
	n := sym.Choice("n", sym.Param("N", 4)+1)
	i := sym.Int64("i")
	var vs []core.Value
	for k := 0; k < n; k++ {
		vs = append(vs, S(string(rune('a'+k))))
	}
	inside := i >= 0 && i < int64(n)
	checkAt := func(r core.Result, def core.Value, label string) {
		switch {
		case inside:
			sym.Assert(r.Code == core.ResultCode_OK && IsStr(r.Value, string(rune('a'+int(i)))), label+": element")
		case def != nil:
			sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, def), label+": default")
		default:
			sym.Assert(r.Code == core.ResultCode_ERROR, label+": out of range")
		}
	}
	d := S("dflt")
	idx := core.INT(i)
	checkAt(core.ListAt(vs, idx), nil, "ListAt")
	checkAt(core.ListAtOrDefault(vs, idx, d), d, "ListAtOrDefault")
	checkAt(core.NewListValue(vs).SelectIndex(idx), nil, "list selector")
	checkAt(core.ApplySelector(core.NewListValue(vs), core.IndexedSelector{Index: idx}), nil, "indexed selector")
	sym.ObserveBool("inside", inside)
	sym.Reach("end")
}

// StringIndexing: any 64-bit index on any string of up to N bytes.
func StringIndexing() {
	n := sym.Choice("n", sym.Param("N", 4)+1)
	i := sym.Int64("i")
	s := sym.Bytes("s", n)
	inside := i >= 0 && i < int64(n)
	checkAt := func(r core.Result, def core.Value, label string) {
		switch {
		case inside:
			c, ok := r.Value.(core.StringValue)
			sym.Assert(r.Code == core.ResultCode_OK && ok && len(c.Value) == 1 && c.Value[0] == s[i], label+": character")
		case def != nil:
			sym.Assert(r.Code == core.ResultCode_OK && Same(r.Value, def), label+": default")
		default:
			sym.Assert(r.Code == core.ResultCode_ERROR, label+": out of range")
		}
	}
	d := L()
	idx := core.INT(i)
	checkAt(core.StringAt(s, idx), nil, "StringAt")
	checkAt(core.StringAtOrDefault(s, idx, d), d, "StringAtOrDefault")
	checkAt(core.STR(s).SelectIndex(idx), nil, "string selector")
	checkAt(core.ApplySelector(core.STR(s), core.IndexedSelector{Index: idx}), nil, "indexed selector")
	sym.ObserveBool("inside", inside)
	sym.Reach("end")
}

// TextIndexing: indexes given as arbitrary text.
func TextIndexing() {
	n := sym.Choice("n", sym.Param("N", 2)+1)
	s := sym.Bytes("s", n)
	i, ok := refInteger(s)
	r := core.ListAt([]core.Value{S("a"), S("b"), S("c")}, S(s))
	q := core.StringAt("abc", S(s))
	sym.Assert(SameResult(r, q), "lists and strings agree")
	switch {
	case !ok:
		sym.Assert(r.Code == core.ResultCode_ERROR && IsStr(r.Value, "invalid integer \""+s+"\""), "invalid index")
		sym.Reach("invalid")
	case i >= 0 && i < 3:
		sym.Assert(r.Code == core.ResultCode_OK && IsStr(r.Value, "abc"[i:i+1]), "element")
		sym.Reach("element")
	default:
		sym.Assert(r.Code == core.ResultCode_ERROR, "out of range")
		sym.Reach("out of range")
	}
}

// ---- selectors ----

// tree builds an arbitrary nest of tuples whose leaves are lists, dictionaries,
// recording values or strings.
func tree(name string, depth int) core.Value {
	k := 5
	if depth == 0 {
		k = 4
	}
	switch sym.Choice(name, k) {
	case 0:
		return L(S("e0"), T(Rec{"e1"}))
	case 1:
		return core.DICT(map[string]core.Value{"k": S("vk"), "0": Rec{"v0"}})
	case 2:
		return Rec{name}
	case 3:
		return S("xy")
	}
	n := sym.Choice(name+"n", 3)
	vs := make([]core.Value, n)
	for i := range vs {
		vs[i] = tree(name+string(rune('0'+i)), depth-1)
	}
	return T(vs...)
}

// pureSelect applies one selector structurally: tuples distribute.
func pureSelect(v core.Value, kind int, key core.Value) (core.Value, bool) {
	if t, ok := IsTuple(v); ok {
		out := make([]core.Value, len(t))
		for i, e := range t {
			x, ok := pureSelect(e, kind, key)
			if !ok {
				return nil, false
			}
			out[i] = x
		}
		return T(out...), true
	}
	ks := key.(core.StringValue).Value
	switch kind {
	case 0:
		if l, ok := IsList(v); ok {
			if ks == "0" || ks == "1" {
				return l[ks[0]-'0'], true
			}
			return nil, false
		}
		if s, ok := v.(core.StringValue); ok {
			if ks == "0" || ks == "1" && len(s.Value) > 1 {
				return S(s.Value[ks[0]-'0' : ks[0]-'0'+1]), true
			}
			return nil, false
		}
		if r, ok := v.(Rec); ok {
			return Rec{r.Path + "['" + ks + "']"}, true
		}
	case 1:
		if d, ok := IsDict(v); ok {
			x, ok := d[ks]
			return x, ok
		}
		if r, ok := v.(Rec); ok {
			return Rec{r.Path + "('" + ks + "')"}, true
		}
	case 2:
		if r, ok := v.(Rec); ok {
			return Rec{r.Path + "{'" + ks + "'}"}, true
		}
	}
	return nil, false
}

// SelectorLaws: applying a chain of selectors to any nest of tuples is the
// element-wise, left-to-right application of each of them.
func SelectorLaws() {
	v := tree("v", sym.Param("D", 1))
	n := sym.Choice("n", sym.Param("N", 2)) + 1
	want, ok := v, true
	got := core.OK(v)
	q := core.NewQualifiedValue(S("v"), nil)
	var steps []core.QualifiedValue
	var displays []string
	for i := 0; i < n; i++ {
		kind := sym.Choice("kind", 4)
		// selecting gives new words
		q.SelectIndex(S("9"))
		q.SelectKey(S("other"))
		q.SelectRules([]core.Value{S("other")})
		steps = append(steps, q)
		displays = append(displays, q.Display(nil))
		key := S([...]string{"0", "1", "2", "k"}[sym.Choice("key", 4)])
		key2 := S([...]string{"0", "k"}[sym.Choice("key2", 2)])
		var sel core.Selector
		switch kind {
		case 0:
			_, sel = core.CreateIndexedSelector(key)
			q = q.SelectIndex(key).Value.(core.QualifiedValue)
		case 1:
			_, sel = core.CreateKeyedSelector([]core.Value{key})
			q = q.SelectKey(key).Value.(core.QualifiedValue)
		case 2:
			_, sel = core.CreateGenericSelector([]core.Value{key})
			q = q.SelectRules([]core.Value{key}).Value.(core.QualifiedValue)
		case 3:
			_, sel = core.CreateKeyedSelector([]core.Value{key, key2})
			q = q.SelectKey(key).Value.(core.QualifiedValue)
			q = q.SelectKey(key2).Value.(core.QualifiedValue)
		}
		if ok {
			k := kind
			if kind == 3 {
				k = 1
			}
			want, ok = pureSelect(want, k, key)
			if ok && kind == 3 {
				want, ok = pureSelect(want, 1, key2)
			}
		}
		if got.Code == core.ResultCode_OK {
			got = core.ApplySelector(got.Value, sel)
		}
	}
	q.SelectIndex(S("9"))
	q.SelectKey(S("other"))
	q.SelectRules([]core.Value{S("other")})
	for i, s := range steps {
		sym.Assert(s.Display(nil) == displays[i], "selecting leaves the word it selects from")
	}
	sym.Assert((got.Code == core.ResultCode_OK) == ok, "selection succeeds exactly when every element has the item")
	// a qualified word with the same selectors merges successive keys only
	res := core.OK(v)
	for i, s := range q.Selectors {
		if i > 0 {
			_, a := q.Selectors[i-1].(core.KeyedSelector)
			_, b := s.(core.KeyedSelector)
			sym.Assert(!(a && b), "successive keys are merged")
		}
		if res.Code == core.ResultCode_OK {
			res = core.ApplySelector(res.Value, s)
		}
	}
	sym.Assert((res.Code == core.ResultCode_OK) == ok, "qualified selection succeeds likewise")
	if ok {
		sym.Assert(Same(got.Value, want), "selected value")
		sym.Assert(Same(res.Value, want), "qualified selected value")
		sym.Reach("selected")
	} else {
		sym.Assert(got.Code == core.ResultCode_ERROR && res.Code == core.ResultCode_ERROR, "selection failures are errors")
		sym.Reach("failed")
	}
	Observe("got", got)
}

// SelectorCreation: selectors without index, keys or rules are rejected.
func SelectorCreation() {
	n := sym.Choice("n", 3)
	keys := make([]core.Value, n)
	for i := range keys {
		keys[i] = kindValue(sym.Choice("kind", valueKinds))
	}
	r, _ := core.CreateKeyedSelector(keys)
	sym.Assert((r.Code == core.ResultCode_OK) == (n > 0), "keyed selectors need keys")
	r, _ = core.CreateGenericSelector(keys)
	sym.Assert((r.Code == core.ResultCode_OK) == (n > 0), "generic selectors need rules")
	if n > 0 {
		r, s := core.CreateIndexedSelector(keys[0])
		sym.Assert((r.Code == core.ResultCode_OK) == !IsNil(keys[0]), "indexed selectors need an index")
		if r.Code == core.ResultCode_OK {
			// applying to any kind of value never fails abnormally
			core.ApplySelector(kindValue(sym.Choice("target", valueKinds)), s)
		}
		_, k := core.CreateKeyedSelector(keys)
		core.ApplySelector(kindValue(sym.Choice("target", valueKinds)), k)
	}
	sym.Reach("end")
}
