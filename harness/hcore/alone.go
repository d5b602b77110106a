package hcore

import "helena/zzverif/sym"

// Alone: harnesses of the core while other goroutines use what it shares.
func Alone() {
	sym.SharedPools()
	[]func(){TokenizerReference, ParserSyntax, WordEvaluation, DisplayString, IntegerStrings, KindConversions, TextIndexing, SelectorLaws, SelectorCreation}[sym.Choice("harness", 9)]()
	sym.Assert(sym.PoolsUntouched(), "what is put back in a pool is not changed")
	sym.Assert(sym.GlobalsUntouched(), "what interpreters share is not changed")
	sym.Reach("end")
}
