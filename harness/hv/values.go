// Package hv holds value helpers shared by the harnesses, written without the
// code under test.
package hv

import (
	"helena/core"
	"helena/zzverif/sym"
	"strings"
)

func S(s string) core.Value { return core.STR(s) }
func I(i int) core.Value    { return core.INT(int64(i)) }
func L(v ...core.Value) core.Value {
	return core.LIST(v)
}
func T(v ...core.Value) core.Value { return core.TUPLE(v) }

// IsStr etc. check values structurally, without the code under test.
func IsStr(v core.Value, s string) bool {
	x, ok := v.(core.StringValue)
	return ok && x.Value == s
}
func IsInt(v core.Value, i int64) bool {
	x, ok := v.(core.IntegerValue)
	return ok && x.Value == i
}
func IsBool(v core.Value, b bool) bool {
	x, ok := v.(core.BooleanValue)
	return ok && x.Value == b
}
func IsNil(v core.Value) bool {
	_, ok := v.(core.NilValue)
	return ok
}
func IsList(v core.Value) ([]core.Value, bool) {
	x, ok := v.(core.ListValue)
	return x.Values, ok
}
func IsTuple(v core.Value) ([]core.Value, bool) {
	x, ok := v.(core.TupleValue)
	return x.Values, ok
}
func IsDict(v core.Value) (map[string]core.Value, bool) {
	x, ok := v.(core.DictionaryValue)
	return x.Map, ok
}

// Same is structural equality of values.
func Same(a, b core.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case core.NilValue:
		return IsNil(b)
	case core.BooleanValue:
		return IsBool(b, x.Value)
	case core.IntegerValue:
		return IsInt(b, x.Value)
	case core.RealValue:
		y, ok := b.(core.RealValue)
		return ok && (x.Value == y.Value || x.Value != x.Value && y.Value != y.Value)
	case core.StringValue:
		return IsStr(b, x.Value)
	case core.ListValue:
		y, ok := b.(core.ListValue)
		return ok && SameAll(x.Values, y.Values)
	case core.TupleValue:
		y, ok := b.(core.TupleValue)
		return ok && SameAll(x.Values, y.Values)
	case core.DictionaryValue:
		y, ok := b.(core.DictionaryValue)
		if !ok || len(x.Map) != len(y.Map) {
			return false
		}
		for k, v := range x.Map {
			w, ok := y.Map[k]
			if !ok || !Same(v, w) {
				return false
			}
		}
		return true
	case core.ScriptValue:
		y, ok := b.(core.ScriptValue)
		return ok && x.Cache == y.Cache
	case core.QualifiedValue:
		y, ok := b.(core.QualifiedValue)
		if !ok || !Same(x.Source, y.Source) || len(x.Selectors) != len(y.Selectors) {
			return false
		}
		for i := range x.Selectors {
			if !sameSelector(x.Selectors[i], y.Selectors[i]) {
				return false
			}
		}
		return true
	case core.CommandValue:
		_, ok := b.(core.CommandValue)
		return ok
	case interface{ SameAs(core.Value) bool }:
		return x.SameAs(b)
	case interface{ Usage(uint) string }:
		y, ok := b.(interface{ Usage(uint) string })
		return ok && x.Usage(0) == y.Usage(0)
	case core.CustomValue:
		y, ok := b.(core.CustomValue)
		return ok && x.CustomType().Name == y.CustomType().Name
	}
	return false
}

func sameSelector(a, b core.Selector) bool {
	switch x := a.(type) {
	case core.IndexedSelector:
		y, ok := b.(core.IndexedSelector)
		return ok && Same(x.Index, y.Index)
	case core.KeyedSelector:
		y, ok := b.(core.KeyedSelector)
		return ok && SameAll(x.Keys, y.Keys)
	case core.GenericSelector:
		y, ok := b.(core.GenericSelector)
		return ok && SameAll(x.Rules, y.Rules)
	}
	return false
}

func SameAll(a, b []core.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// SameResult compares code and value.
func SameResult(a, b core.Result) bool { return a.Code == b.Code && Same(a.Value, b.Value) }

func Code(r core.Result) string {
	switch r.Code {
	case core.ResultCode_OK:
		return "ok"
	case core.ResultCode_RETURN:
		return "return"
	case core.ResultCode_YIELD:
		return "yield"
	case core.ResultCode_ERROR:
		return "error"
	case core.ResultCode_BREAK:
		return "break"
	case core.ResultCode_CONTINUE:
		return "continue"
	}
	return "custom"
}

// Show renders a value structurally (symbolic integers are not rendered).
func Show(v core.Value) string {
	var b strings.Builder
	show(&b, v)
	return b.String()
}

func show(b *strings.Builder, v core.Value) {
	switch x := v.(type) {
	case nil:
		b.WriteString("<nil>")
	case core.NilValue:
		b.WriteString("nil")
	case core.BooleanValue:
		if x.Value {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case core.IntegerValue:
		b.WriteString("int")
	case core.RealValue:
		b.WriteString("real")
	case core.StringValue:
		b.WriteString("'" + x.Value + "'")
	case core.ListValue:
		b.WriteString("[")
		for i, e := range x.Values {
			if i > 0 {
				b.WriteString(" ")
			}
			show(b, e)
		}
		b.WriteString("]")
	case core.TupleValue:
		b.WriteString("(")
		for i, e := range x.Values {
			if i > 0 {
				b.WriteString(" ")
			}
			show(b, e)
		}
		b.WriteString(")")
	case core.DictionaryValue:
		b.WriteString("dict")
	case core.ScriptValue:
		b.WriteString("{")
		if x.Source != nil {
			b.WriteString(*x.Source)
		}
		b.WriteString("}")
	case core.QualifiedValue:
		b.WriteString("qualified:")
		show(b, x.Source)
	case core.CommandValue:
		b.WriteString("command")
	default:
		b.WriteString("custom")
	}
}

func ShowResult(r core.Result) string { return Code(r) + ":" + Show(r.Value) }

// Observe records a result for trace validation.
func Observe(label string, r core.Result) { sym.Observe(label, ShowResult(r)) }

// AnyCode is an arbitrary result code among OK..CUSTOM.
func AnyCode(name string) core.ResultCode {
	return core.ResultCode(sym.Int(name, 0, int(core.ResultCode_CUSTOM)))
}

var CustomCode = core.CustomResultCode{Name: "custom"}

// AnyResult is a result with an arbitrary code.
func AnyResult(name string, v core.Value) core.Result {
	c := AnyCode(name)
	r := core.Result{Code: c, Value: v}
	if c == core.ResultCode_CUSTOM {
		r.Data = CustomCode
	}
	return r
}
