package hcore

import (
	"math"

	"helena/core"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// evalWords evaluates src as the arguments of a command that captures them.
func evalWords(src string) []core.Value {
	r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
	sym.Assert(r.Success, "display parses")
	var captured []core.Value
	ev := core.NewCompilingEvaluator(vars{}, commands{&captured}, selectors{}, nil)
	res := ev.EvaluateScript(*r.Script)
	sym.Assert(res.Code == core.ResultCode_OK, "display evaluates")
	return captured
}

// DisplayString: the display form of any string, as a word among others,
// evaluates to the string.
func DisplayString() {
	n := sym.Choice("n", sym.Param("N", 3)+1)
	s := sym.Bytes("s", n)
	d := core.DisplayLiteralOrString(s)
	sym.Observe("d", d)
	got := evalWords("cmd before " + d + " after")
	sym.Assert(len(got) == 3, "one word")
	sym.Assert(IsStr(got[0], "before") && IsStr(got[2], "after"), "neighbouring words")
	sym.Assert(IsStr(got[1], s), "display evaluates to the string")
	sym.Reach("end")
}

// DisplayTuple: as DisplayString, inside tuples.
func DisplayTuple() {
	a := sym.Bytes("a", sym.Choice("n", sym.Param("N", 2)+1))
	b := sym.Bytes("b", sym.Choice("m", sym.Param("M", 1)+1))
	var v core.Value = T(S(a), T(S(b)))
	if sym.Bool("swap") {
		v = T(T(S(a)), T(), S(b))
	}
	got := evalWords("cmd " + core.Display(v, nil))
	sym.Assert(len(got) == 1, "one word")
	sym.Assert(Same(got[0], v), "display evaluates to the tuple")
	sym.Reach("end")
}

// DisplayQualified: qualified values with string sources, keys and indexes.
func DisplayQualified() {
	a := sym.Bytes("a", sym.Choice("n", sym.Param("N", 2)+1))
	b := sym.Bytes("b", sym.Choice("m", sym.Param("M", 1)+1))
	var src core.Value = S(a)
	if sym.Bool("tuple") {
		src = T(S(a))
	}
	q := core.NewQualifiedValue(src, []core.Selector{core.KeyedSelector{Keys: []core.Value{S(b), S("k")}}})
	if sym.Bool("generic") {
		q.Selectors = append(q.Selectors, core.GenericSelector{Rules: []core.Value{T(S("rule"), S(b)), T(S("x"))}})
	}
	got := evalWords("cmd " + core.Display(q, nil))
	sym.Assert(len(got) == 1, "one word")
	sym.Assert(Same(got[0], q), "display evaluates to the qualified value")
	sym.Reach("end")
}

// reals are doubles of every magnitude and number of digits.
var reals = []float64{0.1, 0.1 + 0.2, 1.0 / 3, 2.0 / 3, 1e15, 1e16, 1e17, 123456789012345678, 1e21, 1e22, 1e300, 5e-324, 2.2250738585072014e-308, math.MaxFloat64, math.SmallestNonzeroFloat64 * 3, 0.000001, 0.0000001, 1.5, 100, 9007199254740993, 0.3, 4.35, math.Pi}

// DisplayNumber: the display form of a boolean or number is one word, whose
// text reads back as the value.
func DisplayNumber() {
	var v core.Value
	kind := sym.Choice("kind", 4)
	i := int64(0)
	f := 0.0
	switch kind {
	case 0:
		i = [...]int64{0, 1 << 53, math.MaxInt64 - 99, math.MinInt64 + 99, -1e15}[sym.Choice("base", 5)]
		i += int64(sym.Int("i", -sym.Param("N", 9), sym.Param("N", 9)))
		v = core.INT(i)
	case 1:
		v = core.BOOL(sym.Bool("b"))
	case 2:
		f = reals[sym.Choice("real", len(reals))]
		if sym.Bool("negative") {
			f = -f
		}
		v = core.REAL(f)
	case 3:
		f = float64(sym.Choice("n", 19)-9) * [...]float64{1, 0.5, 0.1, 1e-5, 1e10, 1e20, 1e-300}[sym.Choice("scale", 7)]
		v = core.REAL(f)
	}
	d := core.Display(v, nil)
	got := evalWords("cmd before " + d + " (" + d + ")")
	sym.Assert(len(got) == 3, "one word")
	t, ok := IsTuple(got[2])
	sym.Assert(ok && len(t) == 1 && Same(t[0], got[1]), "one word")
	switch kind {
	case 0:
		r, back := core.ValueToInteger(got[1])
		sym.Assert(r.Code == core.ResultCode_OK && back == i, "an integer reads back")
	case 1:
		r, back := core.ValueToBoolean(got[1])
		sym.Assert(r.Code == core.ResultCode_OK && back == v.(core.BooleanValue).Value, "a boolean reads back")
	default:
		r, back := core.ValueToFloat(got[1])
		sym.Assert(r.Code == core.ResultCode_OK && back == f, "a real reads back")
	}
	sym.Reach("end")
}
