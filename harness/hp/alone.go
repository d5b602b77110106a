package hp

import "helena/zzverif/sym"

// Alone: harnesses of the Picol dialect and native commands while other
// goroutines use what they share.
func Alone() {
	sym.SharedPools()
	[]func(){Control, Conditions, Operators, Scopes, Totality, ProcArguments, Variables, Regexps, RegexpTotality, Files}[sym.Choice("harness", 10)]()
	sym.Assert(sym.PoolsUntouched(), "what is put back in a pool is not changed")
	sym.Assert(sym.GlobalsUntouched(), "what interpreters share is not changed")
	sym.Reach("end")
}
