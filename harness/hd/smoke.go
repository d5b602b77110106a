package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

func Smoke() {
	root := NewRoot(nil)
	r := AnyResult("code", S("val"))
	Reg(root, "probe", func(args []core.Value, _ *hel.Scope) core.Result { return r })
	n := sym.Int("n", 0, 5)
	Def(root, "n", I(n))
	res := Run(root, "set i 0; while {$i < $n} {set i [+ $i 1]; probe}; get i")
	Observe("r", res)
	sym.Reach("end")
}
