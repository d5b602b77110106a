package hd

import (
	"helena/core"
	hel "helena/helena_dialect"
	. "helena/zzverif/hv"
	"helena/zzverif/sym"
)

// ---- several processes ----

var sharedDefs = []struct{ name, def string }{
	{"m", `macro m {p} {act $p a; act $p [^]}`},
	{"k", `closure k {p} {eval {act $p a; act $p [^]}}`},
	{"f", `proc f {p} {set x [act $p a]; act $p $x; get x}`},
	{"e", `ensemble e {p} {macro m {p} {act $p e; act $p [^]}}`},
	{"n", `namespace n {proc m {p} {act $p n; act $p [^]}}`},
	{"each", `proc each {p} {list (1 2) foreach v {act $p $v}; get v}`},
	{"loops", `proc loops {p} {loop i v (list (x y)) {act $p $i $v}}`},
	{"handled", `proc handled {p} {catch {act $p a; act $p b} error e {act $p $e} finally {act $p f}}`},
	{"rec", `proc rec {p n} {act $p $n; if [$n == 1] {act $p end} else {rec $p 1; act $p [^]}}`},
	{"co", `proc co {p} {set c [coroutine {act $p a; act $p b}]; set r [[$c] wait]; idem ($r [[$c] wait])}`},
	{"test", `proc test {p} {if [string [act $p t] == x$p] {act $p then} else {act $p else}}`},
	{"args", `macro args {p} {list ([act $p a] [act $p b]); idem "[act $p c]$p"}`},
	{"dflt", `closure dflt {p (?q {act d d})} {act $p $q}`},
	{"guarded", `macro guarded {p} (idem {act $p a; act $p [^]})`},
	{"al", `macro m {p} {act $p a; act $p [^]}; alias al (m)`},
	{"wh", `proc wh {p} {set i 0; while {$i < 2} {set i [$i + 1]; act $p $i}; get i}`},
	{"wn", `proc wn {p} {when (string [act $p w]) {(== x) {act $p x} (== x$p) {act $p y} {act $p d}}}`},
	{"gd", `macro gd {p} (gg {act $p a}); macro gg {v} {idem (out $v)}; namespace ns {macro gg {v} {idem (in $v)}; macro gd2 {p} {gd $p}}`},
	{"hr", `macro hr {p} {act $p a; whr; act $p [whr]}; macro whr {} {idem out}; namespace ns {macro whr {} {idem in}; macro hr2 {p} {hr $p}}`},
	{"va", `macro va {p} {set x$p [act $p a]; act $p $[get x$p]}; scope sc {set x0 z; macro va2 {p} {va $p}}`},
	{"cg", `closure cg {p} (cc {act $p a}); closure cc {v} {idem (out $v)}; namespace ns {macro cc {v} {idem (in $v)}; macro cg2 {p} {cg $p}}`},
	{"ag", `macro ag {p ((chk) q)} {act $p $q}; macro chk {v} {act $v g; idem $v}`},
	{"lst", `macro lst {p} {list ((a 1) (b 2)) foreach i (k v) {act $p $i $k $v}}`},
	{"srt", `proc srt {p} {let l [list (b a)]; dict (k v) foreach (k v) {act $p $k $v}; list $l at 0}`},
	{"var", `proc var {p *r} {act $p [tuple $r length]; act $p $*r}`},
	{"pipe", `macro pipe {p} {act $p a; |> act $p; |> idem}`},
}

func sharedCall(c int, p string) string {
	switch name := sharedDefs[c].name; name {
	case "e":
		return "e " + p + " m"
	case "n":
		return "n m " + p
	case "gd", "hr", "cg":
		if p == "1" {
			return "ns " + name + "2 1"
		}
		return name + " " + p
	case "va":
		if p == "1" {
			return "sc call va2 1"
		}
		return name + " " + p
	case "ag":
		return name + " " + p + " " + p
	case "var":
		return name + " " + p + " x" + p + " y" + p
	case "rec":
		return "rec " + p + " 0"
	default:
		return name + " " + p + "; idem [^]"
	}
}

// run of one process.
type processRun struct {
	endings *endings
	acts    []core.Value
	outs    []core.Value
	end     core.Result
	done    bool
}

func (r *processRun) act(args []core.Value) core.Result {
	n := len(r.acts)
	r.acts = append(r.acts, T(snapAll(args)...))
	if n > 12 {
		return core.ERROR("limit")
	}
	return r.endings.at(n)
}

func (r *processRun) step(p *hel.Process) {
	if len(r.outs) > 0 {
		p.YieldBack(S("s" + letter(len(r.outs))))
	}
	res := p.Run()
	if res.Code == core.ResultCode_YIELD && len(r.outs) < 12 {
		r.outs = append(r.outs, res.Value)
		return
	}
	r.end, r.done = res, true
}

func sharedWorld(runs []*processRun, programs []int) *hel.Scope {
	scope := NewRoot(nil)
	Reg(scope, "act", func(args []core.Value, _ *hel.Scope) core.Result {
		for i, r := range runs {
			if r != nil && IsStr(args[1], letter(i)) {
				return r.act(args[2:])
			}
		}
		return core.OK(S("none"))
	})
	for i, c := range programs {
		if runs[i] != nil && (i == 0 || runs[0] == nil || programs[0] != c) {
			sym.Assert(Run(scope, sharedDefs[c].def).Code == core.ResultCode_OK, "harness: prelude")
		}
	}
	return scope
}

// Processes: processes sharing commands and compiled scripts, run in any
// interleaving, each do what they do alone.
func Processes() {
	n := sym.Param("P", 2)
	alone := make([]*processRun, n)
	runs := make([]*processRun, n)
	srcs := make([]string, n)
	same := sym.Param("SAME", 0) > 0
	c := 0
	programs := make([]int, n)
	for i := range runs {
		if i == 0 || !same {
			c = sym.Choice("program", len(sharedDefs))
		}
		programs[i] = c
		e := &endings{}
		alone[i], runs[i] = &processRun{endings: e}, &processRun{endings: e}
		srcs[i] = sharedCall(c, letter(i))
		one := make([]*processRun, n)
		one[i] = alone[i]
		p := Proc(sharedWorld(one, programs), srcs[i])
		for !alone[i].done {
			alone[i].step(p)
		}
	}
	scope := sharedWorld(runs, programs)
	pools()
	ps := make([]*hel.Process, n)
	for i := range ps {
		ps[i] = Proc(scope, srcs[i])
	}
	for left := n; left > 0; {
		// any process that has not ended runs next
		k := 0
		if left > 1 {
			k = sym.Choice("next", left)
		}
		for i, r := range runs {
			if r.done {
				continue
			}
			if k == 0 {
				r.step(ps[i])
				if r.done {
					left--
				}
				break
			}
			k--
		}
	}
	for i, r := range runs {
		a := alone[i]
		sym.Assert(SameAll(r.acts, a.acts), "a process runs what it runs alone")
		sym.Assert(SameAll(r.outs, a.outs), "a process yields what it yields alone")
		sym.Assert(SameResult(r.end, a.end), "a process ends as it ends alone")
		Observe("r", r.end)
		// once ended, a process keeps its result
		sym.Assert(SameResult(ps[i].Run(), r.end), "an ended process keeps its result")
	}
	assertAlone()
	sym.Reach("end")
}
