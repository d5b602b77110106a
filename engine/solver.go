package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatRes uint8

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	queries, sat, unsat, unknown, cacheHits int64
	nanos                                   int64
	slowest                                 int64
}

type qkey struct{ a, b uint64 }
type qval struct {
	res  SatRes
	vals []varVal
}
type varVal struct {
	idx int
	v   uint64
}

// QueryCache is shared by all workers: identical (sliced) queries are decided
// once by the solver.
type QueryCache struct {
	m sync.Map
}

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	session  int32
	ndef     int
	declared map[string]bool
	ctx      *Ctx
	stats    *SolverStats
	cache    *QueryCache
	path     string
	timeout  int // ms
	dump     io.Writer
	deadline time.Time
}

var solverSession int32

func newSolver(ctx *Ctx, cache *QueryCache, stats *SolverStats, path string, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, cache: cache, stats: stats, path: path, timeout: timeoutMs}
	if f := os.Getenv("GOSYM_DUMP"); f != "" {
		w, _ := os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		s.dump = w
	}
	return s
}

func (s *Solver) start() {
	args := []string{"-in", fmt.Sprintf("-t:%d", s.timeout)}
	if strings.Contains(s.path, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	cmd := exec.Command(s.path, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(engineErr(err.Error()))
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(engineErr(err.Error()))
	}
	if err := cmd.Start(); err != nil {
		panic(engineErr("cannot start solver: " + err.Error()))
	}
	s.cmd, s.in, s.out = cmd, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.session = atomic.AddInt32(&solverSession, 1)
	s.ndef = 0
	s.declared = map[string]bool{}
	s.send("(set-option :produce-models true)\n")
	if strings.Contains(s.path, "cvc5") {
		s.send("(set-logic ALL)\n")
	}
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(t string) {
	if s.dump != nil {
		io.WriteString(s.dump, t)
	}
	s.in.WriteString(t)
}

func (s *Solver) define(e *Expr) {
	switch e.op {
	case OConst:
		return
	case OVar:
		n := varName(int(e.n), e.w)
		if !s.declared[n] {
			s.declared[n] = true
			s.send("(declare-const " + n + " " + sortName(e.w) + ")\n")
		}
		return
	}
	if e.defined == s.session {
		return
	}
	s.define(e.a)
	if e.b != nil {
		s.define(e.b)
	}
	if e.c != nil {
		s.define(e.c)
	}
	s.send("(define-fun e" + strconv.Itoa(int(e.id)) + " () " + sortName(e.w) + " " + smtBody(e) + ")\n")
	e.defined = s.session
	s.ndef++
}

func collectVars(e *Expr, out map[int]uint8, seen map[*Expr]bool) {
	if e == nil || seen[e] {
		return
	}
	seen[e] = true
	if e.op == OVar {
		out[int(e.n)] = e.w
		return
	}
	collectVars(e.a, out, seen)
	collectVars(e.b, out, seen)
	collectVars(e.c, out, seen)
}

// check decides the conjunction of cs. On Sat it returns values for the
// variables occurring in cs.
func (s *Solver) check(cs []*Expr) (SatRes, []varVal) {
	var k qkey
	for _, e := range cs {
		k.a += mix(e.h1, 7)
		k.b += mix(e.h2, 13)
	}
	k.a = mix(k.a, uint64(len(cs)))
	if v, ok := s.cache.m.Load(k); ok {
		atomic.AddInt64(&s.stats.cacheHits, 1)
		q := v.(*qval)
		return q.res, q.vals
	}
	t0 := time.Now()
	if !s.deadline.IsZero() && t0.After(s.deadline) {
		panic(pathEnd{kind: endTimeout})
	}
	res, vals := s.solve(cs)
	if slowLog != "" && time.Since(t0) > 2*time.Second {
		dumpQuery(cs, res, time.Since(t0))
	}
	dt := int64(time.Since(t0))
	atomic.AddInt64(&s.stats.nanos, dt)
	atomic.AddInt64(&s.stats.queries, 1)
	for {
		o := atomic.LoadInt64(&s.stats.slowest)
		if dt <= o || atomic.CompareAndSwapInt64(&s.stats.slowest, o, dt) {
			break
		}
	}
	switch res {
	case Sat:
		atomic.AddInt64(&s.stats.sat, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.unsat, 1)
	default:
		atomic.AddInt64(&s.stats.unknown, 1)
	}
	if res != Unknown {
		s.cache.m.Store(k, &qval{res, vals})
	}
	return res, vals
}

func (s *Solver) solve(cs []*Expr) (SatRes, []varVal) {
	if s.cmd != nil && s.ndef > 20000 {
		s.stop()
	}
	if s.cmd == nil {
		s.start()
	}
	for _, e := range cs {
		s.define(e)
	}
	s.send("(push 1)\n")
	for _, e := range cs {
		s.send("(assert " + ref(e) + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	var res SatRes
	var vals []varVal
	switch line {
	case "sat":
		res = Sat
		vars := map[int]uint8{}
		seen := map[*Expr]bool{}
		for _, e := range cs {
			collectVars(e, vars, seen)
		}
		idxs := make([]int, 0, len(vars))
		for i := range vars {
			idxs = append(idxs, i)
		}
		sort.Ints(idxs)
		if len(idxs) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, i := range idxs {
				sb.WriteString(varName(i, vars[i]) + " ")
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			vals = s.readValues(idxs)
		}
	case "unsat":
		res = Unsat
	default:
		res = Unknown
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "gosym: solver:", line)
			s.stop()
			return Unknown, nil
		}
	}
	s.send("(pop 1)\n")
	return res, vals
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.stop()
			return "(error eof"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readValues(idxs []int) []varVal {
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(engineErr("solver died"))
		}
		for _, ch := range l {
			if ch == '(' {
				depth++
			} else if ch == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		if depth <= 0 && strings.TrimSpace(l) != "" {
			break
		}
	}
	txt := strings.NewReplacer("(", " ( ", ")", " ) ").Replace(sb.String())
	toks := strings.Fields(txt)
	byName := map[string]uint64{}
	for i := 0; i < len(toks); i++ {
		if len(toks[i]) > 1 && toks[i][0] == 'v' && strings.Contains(toks[i], "_") && i+1 < len(toks) {
			v := toks[i+1]
			switch {
			case v == "true":
				byName[toks[i]] = 1
			case v == "false":
				byName[toks[i]] = 0
			case strings.HasPrefix(v, "#x"):
				n, _ := strconv.ParseUint(v[2:], 16, 64)
				byName[toks[i]] = n
			case strings.HasPrefix(v, "#b"):
				n, _ := strconv.ParseUint(v[2:], 2, 64)
				byName[toks[i]] = n
			case v == "(" && i+3 < len(toks) && toks[i+2] == "_" && strings.HasPrefix(toks[i+3], "bv"):
				n, _ := strconv.ParseUint(toks[i+3][2:], 10, 64)
				byName[toks[i]] = n
			default:
				panic(engineErr("cannot parse model value " + v))
			}
		}
	}
	var out []varVal
	for _, i := range idxs {
		for name, v := range byName {
			if strings.HasPrefix(name, "v"+strconv.Itoa(i)+"_") {
				out = append(out, varVal{i, v})
			}
		}
	}
	return out
}

var slowLog = os.Getenv("GOSYM_SLOW")

// dumpQuery appends a slow query to the file named by GOSYM_SLOW.
func dumpQuery(cs []*Expr, res SatRes, d time.Duration) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "; %v %v\n", res, d)
	seen := map[*Expr]bool{}
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if e == nil || seen[e] || e.op == OConst || e.op == OVar {
			return
		}
		seen[e] = true
		rec(e.a)
		rec(e.b)
		rec(e.c)
		fmt.Fprintf(&sb, "e%d = %s\n", e.id, smtBody(e))
	}
	for _, e := range cs {
		rec(e)
	}
	for _, e := range cs {
		fmt.Fprintf(&sb, "assert %s\n", ref(e))
	}
	f, err := os.OpenFile(slowLog, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err == nil {
		f.WriteString(sb.String())
		f.Close()
	}
}
