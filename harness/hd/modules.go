package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- modules ----

// moduleFiles are the files of the modules, and how each is written from the
// root directory and from the subdirectory.
var moduleFiles = []struct{ path, top, sub, top2, sub2 string }{
	{"vm/a", "a", "../a", "./d/../a", "./../a"},
	{"vm/d/b", "d/b", "b", "d//b", "../d/b"},
	{"vm/d/c", "d/c", "./c", "./d/c", "c"},
}

// refModule is a module: its commands inc count.
type refModule struct {
	inc  *int
	opt  bool
	mine int
}

// refModules is the reference: files are made up when they are first read.
type refModules struct {
	body    [3]int
	target  [3]int
	known   [3]bool
	bad     [3]bool
	loaded  [3]*refModule
	loading [3]bool
}

const (
	modPlain = iota
	modImport
	modImportInc
	modCatch
	modError
	modReturn
	modSyntax
	modMissing
	modYield
	modKinds
)

func (r *refModules) spelled(from, to int) string {
	f := moduleFiles[to]
	if from <= 0 {
		return f.top
	}
	return f.sub
}

func (r *refModules) write(i int) {
	f := moduleFiles[i].path
	to := r.spelled(i, r.target[i])
	src := "set n 0; closure inc {} {set n [+ $n 1]}; export inc; export later\n"
	switch r.body[i] {
	case modImport:
		src += "import " + to
	case modImportInc:
		src += "import " + to + " (inc)"
	case modCatch:
		src += "catch {import " + to + " ((inc other)); export other}"
	case modError:
		src += "error boom"
	case modReturn:
		src += "return a"
	case modSyntax:
		src += "idem [a"
	case modYield:
		src += "yield a"
	case modMissing:
		sym.RemoveFile(f)
		return
	}
	sym.WriteFile(f, src+"\nclosure opt {} {idem o}; export opt")
}

// load loads a module; it returns the error otherwise, "?" for any.
func (r *refModules) load(i int) (*refModule, string) {
	if r.loaded[i] != nil {
		return r.loaded[i], ""
	}
	if r.loading[i] {
		return nil, "circular imports are forbidden"
	}
	if r.known[i] && !r.bad[i] && sym.Bool("rewritten") {
		// the file is repaired after its failure
		r.body[i] = modPlain
		r.write(i)
	}
	if !r.known[i] {
		r.known[i] = true
		r.body[i] = sym.Param("FIRST", 0) + sym.Choice("module", sym.Param("KINDS", modKinds))
		if r.body[i] >= modImport && r.body[i] <= modCatch {
			r.target[i] = sym.Choice("imported", 3)
		}
		r.write(i)
	}
	if r.bad[i] {
		return nil, "?"
	}
	r.loading[i] = true
	m := &refModule{}
	m.inc = &m.mine
	err := ""
	switch r.body[i] {
	case modImport:
		_, err = r.load(r.target[i])
	case modImportInc:
		var o *refModule
		o, err = r.load(r.target[i])
		if o != nil {
			m.inc = o.inc
		}
	case modCatch:
		r.load(r.target[i])
	case modError:
		err = "boom"
	case modReturn:
		err = "unexpected return"
	case modYield:
		err = "unexpected yield"
	case modSyntax, modMissing:
		err = "?"
	}
	r.loading[i] = false
	if err != "" {
		return nil, err
	}
	m.opt = true
	r.loaded[i] = m
	return m, ""
}

// Modules: any history of imports of files that import each other runs each
// file once, shares its module between importers, and fails as its body does.
func Modules() {
	root := hel.NewRootScope(nil)
	registry := hel.NewModuleRegistry(nil)
	hel.InitCommandsForModule(root, registry, "vm")
	for _, f := range moduleFiles {
		sym.RemoveFile(f.path)
	}
	ref := &refModules{}
	var imported *int
	k := sym.Param("K", 2)
	for step := 0; step < k; step++ {
		i := sym.Choice("file", 3)
		name := moduleFiles[i].top
		if step > 0 && sym.Bool("spelling") {
			name = moduleFiles[i].top2
		}
		wantErr := ""
		want := 0
		src := ""
		switch [...]int{5, 1, 4, 0, 3, 2}[sym.Choice("op", sym.Param("OPS", 6))] {
		case 0: // the module value gives the commands
			src = "import " + name + "; [import " + name + "] import inc z; z"
			m, err := ref.load(i)
			wantErr = err
			if m != nil {
				*m.inc++
				want = *m.inc
			}
		case 1: // a named module
			src = "import " + name + " m; m import inc; inc"
			m, err := ref.load(i)
			wantErr = err
			if m != nil {
				*m.inc++
				want = *m.inc
				imported = m.inc
			}
		case 2: // imported names, in any kind of collection
			form := [...]string{"(inc)", "[list (inc)]", "{inc}", "((inc inc))", "(opt inc)"}[sym.Choice("names", 5)]
			src = "import " + name + " " + form + "; inc"
			m, err := ref.load(i)
			wantErr = err
			if m != nil {
				*m.inc++
				want = *m.inc
				imported = m.inc
			}
		case 3: // invalid names
			form := [...]string{"(later)", "(none)", "((inc))", "([])", "((inc inc inc))"}[sym.Choice("invalid", 5)]
			src = "import " + name + " " + form
			_, wantErr = ref.load(i)
			if wantErr == "" {
				wantErr = "?"
			}
		case 4: // an inline module imports from the same directory
			src = "module m {import " + name + " (inc); export inc}; m import inc y; y"
			m, err := ref.load(i)
			wantErr = err
			if m != nil {
				*m.inc++
				want = *m.inc
			}
		case 5: // files changed after they were read
			if ref.known[i] {
				sym.WriteFile(moduleFiles[i].path, "idem [a")
				ref.bad[i] = true
			}
			if imported == nil {
				return
			}
			src = "inc"
			*imported++
			want = *imported
		}
		got := Run(root, src)
		sym.Observe("code", Code(got))
		if wantErr != "" {
			sym.Assert(got.Code == core.ResultCode_ERROR, "failed imports are errors")
			if wantErr != "?" {
				sym.Assert(IsStr(got.Value, wantErr), "an import fails as the module's body does")
			}
			sym.Reach("error")
		} else {
			sym.Assert(got.Code == core.ResultCode_OK, "imports work")
			sym.Assert(IsInt(got.Value, int64(want)), "each module has one state, shared by its importers")
			sym.Reach("ok")
		}
	}
}
