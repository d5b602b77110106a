// Package hd holds the harnesses of the Helena dialect.
package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	"helena/zzverif/sym"
)

// NewRoot builds a root scope with the dialect's commands.
func NewRoot(opts *hel.ScopeOptions) *hel.Scope {
	scope := hel.NewRootScope(opts)
	hel.InitCommandsForModule(scope, hel.NewModuleRegistry(nil), "/")
	return scope
}

// Parse parses src, which must be well-formed.
func Parse(src string) core.Script {
	r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
	if !r.Success {
		sym.Fail("harness: script does not parse")
	}
	return *r.Script
}

func Proc(scope *hel.Scope, src string) *hel.Process {
	return scope.PrepareProcess(scope.Compile(Parse(src)))
}

// Run evaluates src in scope.
func Run(scope *hel.Scope, src string) core.Result { return Proc(scope, src).Run() }

// Def defines a constant.
func Def(scope *hel.Scope, name string, v core.Value) {
	scope.SetNamedConstant(name, v)
}

// Script is a script value.
func Script(src string) core.ScriptValue { return core.NewScriptValue(Parse(src), src) }

// ScriptNoSrc is a script value with no source.
func ScriptNoSrc(src string) core.ScriptValue { return core.NewScriptValueWithNoSource(Parse(src)) }

// Cmd is a native command.
type Cmd func(args []core.Value, scope *hel.Scope) core.Result

func (c Cmd) Execute(args []core.Value, context any) core.Result {
	s, _ := context.(*hel.Scope)
	return c(args, s)
}

// Reg registers a native command.
func Reg(scope *hel.Scope, name string, c Cmd) { scope.RegisterNamedCommand(name, c) }

// Call runs a command on argument values.
func Call(scope *hel.Scope, args ...core.Value) core.Result {
	return scope.PrepareProcess(scope.CompileArgs(args)).Run()
}
