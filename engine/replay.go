package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	osexec "os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Replayer compiles a harness natively (with the real compiler, against the
// current tree) and runs it on concrete inputs.
type Replayer struct {
	repoSrc string
	ovl     map[string]string // virtual path -> real path
	pkg, fn string
	params  map[string]int
	tmp     string
	once    sync.Once
	err     error
	n       int
}

type natResult struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
}

func (r *Replayer) build() error {
	r.once.Do(func() {
		tmp, err := os.MkdirTemp("", "gosym-replay-")
		if err != nil {
			r.err = err
			return
		}
		r.tmp = tmp
		main := filepath.Join(tmp, "main.go")
		src := fmt.Sprintf("package main\n\nimport (\n\t\"helena/zzverif/sym\"\n\th \"%s\"\n)\n\nfunc main() { sym.Main(h.%s) }\n", r.pkg, r.fn)
		os.WriteFile(main, []byte(src), 0o644)
		rep := map[string]string{filepath.Join(r.repoSrc, "zzverif/zzmain/main.go"): main}
		for k, v := range r.ovl {
			rep[k] = v
		}
		r.hookPools(tmp, rep)
		b, _ := json.Marshal(map[string]any{"Replace": rep})
		ov := filepath.Join(tmp, "overlay.json")
		os.WriteFile(ov, b, 0o644)
		cmd := osexec.Command("go", "build", "-overlay", ov, "-o", filepath.Join(tmp, "replay"), "./zzverif/zzmain")
		cmd.Dir = r.repoSrc
		cmd.Env = goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			r.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	})
	return r.err
}

// hookPools lets the native harness act as the other goroutines that use the
// same pools: what is put in a pool is given to a function of package sym.
func (r *Replayer) hookPools(tmp string, rep map[string]string) {
	uses := false
	for k, v := range r.ovl {
		if strings.HasSuffix(k, ".go") && strings.HasSuffix(filepath.Dir(k), pkgDir(r.pkg)) {
			if b, err := os.ReadFile(v); err == nil && strings.Contains(string(b), "sym.SharedPools()") {
				uses = true
			}
		}
	}
	if !uses {
		return
	}
	cmd := osexec.Command("go", "env", "GOROOT")
	cmd.Dir = r.repoSrc
	cmd.Env = goEnv()
	root, err := cmd.Output()
	if err != nil {
		return
	}
	pool := filepath.Join(strings.TrimSpace(string(root)), "src/sync/pool.go")
	b, err := os.ReadFile(pool)
	const at = "func (p *Pool) Put(x any) {\n"
	if err != nil || !strings.Contains(string(b), at) {
		return
	}
	src := strings.Replace(string(b), at, at+"\tif PutHook != nil && PutHook(x) {\n\t\treturn\n\t}\n", 1) + "\nvar PutHook func(x any) bool\n"
	hooked := filepath.Join(tmp, "pool.go")
	os.WriteFile(hooked, []byte(src), 0o644)
	rep[pool] = hooked
	hook := filepath.Join(tmp, "hook.go")
	os.WriteFile(hook, []byte(poolHook), 0o644)
	rep[filepath.Join(r.repoSrc, "zzverif/sym/zz_pools.go")] = hook
	r.hookGlobals(tmp, rep)
}

// hookGlobals gives package sym the addresses of the package-level variables of
// the code under test.
func (r *Replayer) hookGlobals(tmp string, rep map[string]string) {
	imports, list := "", ""
	n := 0
	filepath.WalkDir(r.repoSrc, func(path string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return nil
		}
		if d.Name() == "zzverif" || d.Name() == "vendor" || d.Name() == "testdata" {
			return filepath.SkipDir
		}
		p, err := build.ImportDir(path, 0)
		rel, _ := filepath.Rel(r.repoSrc, path)
		if err != nil || p.Name == "main" || rel == "." {
			return nil
		}
		src := "package " + p.Name + "\n\nfunc ZZGlobals() []any {\n\treturn []any{\n"
		any := false
		for _, f := range p.GoFiles {
			t, err := parser.ParseFile(token.NewFileSet(), filepath.Join(path, f), nil, 0)
			if err != nil {
				return nil
			}
			for _, d := range t.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, sp := range g.Specs {
					for _, name := range sp.(*ast.ValueSpec).Names {
						if name.Name != "_" {
							src += "\t\t&" + name.Name + ",\n"
							any = true
						}
					}
				}
			}
		}
		if !any {
			return nil
		}
		n++
		out := filepath.Join(tmp, fmt.Sprintf("globals%d.go", n))
		os.WriteFile(out, []byte(src+"\t}\n}\n"), 0o644)
		rep[filepath.Join(path, "zz_globals.go")] = out
		imports += fmt.Sprintf("\tp%d %q\n", n, modPath+"/"+filepath.ToSlash(rel))
		list += fmt.Sprintf("\t\tp%d.ZZGlobals,\n", n)
		return nil
	})
	hook := filepath.Join(tmp, "ghook.go")
	os.WriteFile(hook, []byte("package sym\n\nimport (\n"+imports+")\n\nfunc init() {\n\tglobals = []func() []any{\n"+list+"\t}\n}\n"), 0o644)
	rep[filepath.Join(r.repoSrc, "zzverif/sym/zz_globals.go")] = hook
}

func pkgDir(pkg string) string { return strings.TrimPrefix(pkg, "helena/") }

const poolHook = `package sym

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"sync"
	"unsafe"
)

func init() {
	var given []reflect.Value
	sharedPools = func(on bool) {
		given = nil
		sync.PutHook = nil
		watched = nil
		if !on {
			return
		}
		watched = globalState()
		sync.PutHook = func(x any) bool {
			v := reflect.ValueOf(x)
			if v.Kind() != reflect.Pointer || v.Type().PkgPath() == "fmt" || !ours(v.Type().Elem().PkgPath()) {
				return false
			}
			v = v.Elem()
			if v.Kind() == reflect.Struct {
				for i := 0; i < v.NumField(); i++ {
					f := v.Field(i)
					if f.Kind() != reflect.Slice || f.Len() > 0 {
						continue
					}
					f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
					f = f.Slice(0, f.Cap())
					for j := 0; j < f.Len(); j++ {
						f.Index(j).SetZero()
						given = append(given, f.Index(j))
					}
				}
			}
			v.SetZero()
			given = append(given, v)
			return true
		}
	}
	poolsUntouched = func() bool {
		for _, v := range given {
			if !v.IsZero() {
				return false
			}
		}
		return true
	}
}

var (
	globals []func() []any
	watched []any
)

func init() {
	globalsUntouched = func() bool {
		return watched == nil || slices.Equal(watched, globalState())
	}
}

func globalState() []any {
	w := &gwalk{seen: map[gref]int{}, out: []any{0}}
	for _, f := range globals {
		for _, p := range f() {
			w.val(reflect.ValueOf(p))
		}
	}
	return w.out
}

type gref struct {
	p unsafe.Pointer
	t reflect.Type
}
type gwalk struct {
	seen map[gref]int
	out  []any
}

func (w *gwalk) ref(p unsafe.Pointer, t reflect.Type) bool {
	if n, ok := w.seen[gref{p, t}]; ok {
		w.out = append(w.out, -1-n)
		return false
	}
	w.seen[gref{p, t}] = len(w.seen)
	return true
}

func (w *gwalk) val(v reflect.Value) {
	t := v.Type()
	switch v.Kind() {
	case reflect.Struct:
		if t.PkgPath() != "" && !ours(t.PkgPath()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			w.val(v.Field(i))
		}
	case reflect.Pointer:
		w.out = append(w.out, v.IsNil())
		if !v.IsNil() && w.ref(v.UnsafePointer(), t) {
			w.val(v.Elem())
		}
	case reflect.Interface:
		w.out = append(w.out, v.IsNil())
		if !v.IsNil() {
			w.out = append(w.out, v.Elem().Type())
			w.val(v.Elem())
		}
	case reflect.Slice:
		w.out = append(w.out, v.Len(), v.Cap())
		if v.Cap() > 0 && w.ref(v.UnsafePointer(), t) {
			v = v.Slice(0, v.Cap())
			for i := 0; i < v.Len(); i++ {
				w.val(v.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.val(v.Index(i))
		}
	case reflect.Map:
		w.out = append(w.out, v.Len())
		if v.Len() > 0 && w.ref(v.UnsafePointer(), t) {
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
			for _, k := range ks {
				w.val(k)
				w.val(v.MapIndex(k))
			}
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		w.out = append(w.out, v.Pointer())
	case reflect.Bool:
		w.out = append(w.out, v.Bool())
	case reflect.String:
		w.out = append(w.out, v.String())
	case reflect.Float32, reflect.Float64:
		w.out = append(w.out, math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		w.out = append(w.out, v.Complex())
	default:
		if v.CanInt() {
			w.out = append(w.out, v.Int())
		} else {
			w.out = append(w.out, v.Uint())
		}
	}
}

func ours(pkg string) bool { return len(pkg) > 6 && pkg[:7] == "helena/" }
`

func (r *Replayer) close() {
	if r.tmp != "" {
		os.RemoveAll(r.tmp)
	}
}

// runCases runs the native harness; it returns the results that were written
// and a description of an abnormal end ("" if none).
func (r *Replayer) runCases(cases [][]InputVal, timeout time.Duration) ([]natResult, string, error) {
	if err := r.build(); err != nil {
		return nil, "", err
	}
	r.n++
	in := filepath.Join(r.tmp, fmt.Sprintf("in%d.json", r.n))
	out := filepath.Join(r.tmp, fmt.Sprintf("out%d.json", r.n))
	scratch := filepath.Join(r.tmp, fmt.Sprintf("scratch%d", r.n))
	os.MkdirAll(scratch, 0o755)
	defer os.RemoveAll(scratch)
	f, _ := os.Create(in)
	for _, c := range cases {
		b, _ := json.Marshal(map[string]any{"inputs": c, "params": r.params})
		f.Write(append(b, '\n'))
	}
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := osexec.CommandContext(ctx, filepath.Join(r.tmp, "replay"), in, out, scratch)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
	var eb strings.Builder
	cmd.Stderr = &limitWriter{w: &eb, n: 4000}
	err := cmd.Run()
	abn := ""
	if ctx.Err() != nil {
		abn = "timeout"
	} else if err != nil {
		abn = "crash: " + err.Error() + ": " + firstLine(eb.String())
	}
	var res []natResult
	if g, e := os.Open(out); e == nil {
		sc := bufio.NewScanner(g)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			var nr natResult
			if json.Unmarshal(sc.Bytes(), &nr) == nil {
				res = append(res, nr)
			}
		}
		g.Close()
	}
	return res, abn, nil
}

type limitWriter struct {
	w *strings.Builder
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
