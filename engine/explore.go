package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	dFree uint8 = iota
	dForced
	dValue
)

type dec struct {
	kind uint8
	val  uint64
}

type dnode struct {
	parent *dnode
	d      dec
}

func (d *dnode) list() []dec {
	n := 0
	for x := d; x != nil; x = x.parent {
		n++
	}
	out := make([]dec, n)
	for x := d; x != nil; x = x.parent {
		n--
		out[n] = x.d
	}
	return out
}

type item struct {
	path  *dnode
	model []uint64
}

// Candidate is a violation found symbolically, before native replay.
type Candidate struct {
	Label  string
	Msg    string
	Inputs []InputVal
	Kind   string // assert, panic, bound
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type Trace struct {
	Inputs []InputVal `json:"inputs"`
	Obs    []string   `json:"obs"`
}

type Explorer struct {
	p          *Prog
	entry      *ssa.Function
	cache      *QueryCache
	stats      SolverStats
	solverPath string
	timeoutMs  int
	maxSteps   int64
	maxPaths   int64
	deadline   time.Time
	params     map[string]int
	seed       int64

	mu     sync.Mutex
	cond   *sync.Cond
	queues [][]*item
	idle   int
	done   bool
	nw     int
	steal  int

	branches   int64
	paths      int64 // completed
	assumed    int64 // ended by assume
	asserts    int64
	assertsSym int64
	bound      int64
	steps      int64
	unknown    int64
	unsup      map[string]int
	reach      map[string]int64
	cands      []*Candidate
	candSeen   map[string]int
	onCand     func(c *Candidate) bool // returns true to stop
	traces     []*Trace
	nTraces    int64
	maxTraces  int
	rng        *rand.Rand
	truncated  string
	maxDecs    int64
	internals  int64
	candMu     sync.Mutex
}

func (ex *Explorer) noteUnknown() { atomic.AddInt64(&ex.unknown, 1) }

func (ex *Explorer) push(m *Machine, it *item) {
	ex.mu.Lock()
	ex.queues[m.wid()] = append(ex.queues[m.wid()], it)
	if ex.idle > 0 {
		ex.cond.Signal()
	}
	ex.mu.Unlock()
}

func (m *Machine) wid() int { return m.id }

func (ex *Explorer) next(id int) *item {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.done {
			return nil
		}
		if q := ex.queues[id]; len(q) > 0 {
			it := q[len(q)-1]
			ex.queues[id] = q[:len(q)-1]
			return it
		}
		// steal the oldest item of the longest queue
		best, bl := -1, 0
		for i, q := range ex.queues {
			if len(q) > bl {
				best, bl = i, len(q)
			}
		}
		if best >= 0 {
			it := ex.queues[best][0]
			ex.queues[best] = ex.queues[best][1:]
			return it
		}
		ex.idle++
		if ex.idle == ex.nw {
			ex.done = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
		ex.idle--
	}
}

func (ex *Explorer) stop(why string) {
	ex.mu.Lock()
	if !ex.done {
		ex.done = true
		if why != "" && ex.truncated == "" {
			ex.truncated = why
		}
	}
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *Explorer) run(workers int) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.nw = workers
	ex.queues = make([][]*item, workers)
	ex.unsup = map[string]int{}
	ex.reach = map[string]int64{}
	ex.candSeen = map[string]int{}
	ex.rng = rand.New(rand.NewSource(ex.seed))
	if ex.cache == nil {
		ex.cache = &QueryCache{}
	}
	ex.queues[0] = []*item{{}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			m := newMachine(ex.p, ex)
			m.id = id
			defer m.solver.stop()
			for {
				it := ex.next(id)
				if it == nil {
					return
				}
				m.runPath(it)
				if len(m.ctx.tab) > 2_000_000 {
					// drop the expression table; definitions are re-created
					m.ctx = newCtx()
					m.solver.stop()
					m.solver.ctx = m.ctx
				}
				n := atomic.LoadInt64(&ex.paths) + atomic.LoadInt64(&ex.assumed)
				if ex.maxPaths > 0 && n >= ex.maxPaths && !ex.exhausted() {
					ex.stop("path budget")
				}
				if time.Now().After(ex.deadline) && !ex.exhausted() {
					ex.stop("time budget")
				}
			}
		}(i)
	}
	wg.Wait()
}

func (ex *Explorer) exhausted() bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for _, q := range ex.queues {
		if len(q) > 0 {
			return false
		}
	}
	return ex.idle == ex.nw-1
}

func (m *Machine) reset(it *item) {
	if it.path != nil {
		m.prefix = it.path.list()
	} else {
		m.prefix = nil
	}
	m.ppos = 0
	m.trace = nil
	m.pc = m.pc[:0]
	m.known = map[*Expr]bool{}
	m.model = append([]uint64(nil), it.model...)
	m.inputs = m.inputs[:0]
	m.obs = nil
	m.reach = map[string]bool{}
	m.pools = map[*V][]V{}
	m.files = map[string]V{}
	m.poolMode = 0
	m.given = m.given[:0]
	m.watched, m.locked = nil, false
	m.mapOrder = false
	m.steps = 0
	m.sp, m.depth = 0, 0
	m.nvars = 0
	m.nasserts = 0
	m.fmtDepth = 0
	m.internal = 0
	for i := range m.globals {
		if m.globals[i] == nil {
			continue
		}
		g := m.p.global(i)
		if g.Pkg != nil && isTarget(g.Pkg.Pkg.Path()) {
			m.globals[i] = nil
		}
	}
}

func (m *Machine) runPath(it *item) {
	ex := m.ex
	m.reset(it)
	defer func() {
		atomic.AddInt64(&ex.steps, m.steps)
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case pathEnd:
			switch e.kind {
			case endAssume, endInfeasible:
				atomic.AddInt64(&ex.assumed, 1)
			case endTimeout:
				ex.stop("time budget")
			case endBound, endDepth:
				atomic.AddInt64(&ex.paths, 1)
				atomic.AddInt64(&ex.bound, 1)
				m.candidate("bound", "unbounded execution: "+e.msg, e.msg+" at "+m.where())
			case endViolation:
				atomic.AddInt64(&ex.paths, 1)
				m.candidate("assert", e.msg, e.msg)
			}
		case *targetPanic:
			atomic.AddInt64(&ex.paths, 1)
			m.candidate("panic", "panic: "+m.panicText(e), m.panicText(e)+" at "+e.pos)
		case *EngineError:
			atomic.AddInt64(&ex.paths, 1)
			if os.Getenv("GOSYM_TRACE") != "" {
				fmt.Fprintln(os.Stderr, "engine:", e.msg, "at", m.safeWhere())
			}
			ex.mu.Lock()
			ex.unsup[e.msg]++
			ex.mu.Unlock()
		default:
			if os.Getenv("GOSYM_TRACE") != "" {
				fmt.Fprintln(os.Stderr, "engine crash at", m.safeWhere())
				panic(r)
			}
			ex.mu.Lock()
			ex.unsup[fmt.Sprint("engine crash: ", r, " at ", m.safeWhere())]++
			ex.mu.Unlock()
		}
	}()
	m.callV(nil, m.p.fn(ex.entry.Pkg.Func("init")), nil, nil)
	m.callV(nil, m.p.fn(ex.entry), nil, nil)
	if m.ppos < len(m.prefix) {
		panic(engineErr("replay divergence (short path)"))
	}
	atomic.AddInt64(&ex.paths, 1)
	atomic.AddInt64(&ex.asserts, m.nasserts)
	n := atomic.AddInt64(&ex.nTraces, 1)
	ex.mu.Lock()
	for k := range m.reach {
		ex.reach[k]++
	}
	if m.internal == 0 && ex.maxTraces > 0 {
		slot := -1
		if len(ex.traces) < ex.maxTraces {
			ex.traces = append(ex.traces, nil)
			slot = len(ex.traces) - 1
		} else if k := ex.rng.Int63n(n); k < int64(ex.maxTraces) {
			slot = int(k)
		}
		if slot >= 0 {
			ex.traces[slot] = m.mkTrace()
		}
	}
	ex.mu.Unlock()
}

func (m *Machine) safeWhere() (s string) {
	defer func() {
		if recover() != nil {
			s = "?"
		}
	}()
	return m.where()
}

func (m *Machine) inputVals() []InputVal {
	out := []InputVal{}
	for _, in := range m.inputs {
		if in.Kind == "internal" {
			continue
		}
		var v uint64
		if in.idx < len(m.model) {
			v = m.model[in.idx] & mask(in.w)
		}
		if in.sgn {
			v = uint64(sx(v, in.w))
		}
		out = append(out, InputVal{in.Name, in.Kind, v})
	}
	return out
}

func (m *Machine) mkTrace() *Trace {
	t := &Trace{Inputs: m.inputVals()}
	for _, o := range m.obs {
		t.Obs = append(t.Obs, o.label+"="+m.renderObs(o))
	}
	return t
}

func (m *Machine) renderObs(o obsRec) string {
	switch o.kind {
	case "string":
		bs := strBytes(o.v)
		b := make([]byte, len(bs))
		for i := range bs {
			if e, ok := bs[i].o.(*Expr); ok {
				b[i] = byte(m.ctx.eval(e, m.model))
			} else {
				b[i] = byte(bs[i].n)
			}
		}
		return fmt.Sprintf("%q", string(b))
	case "int":
		if e, ok := o.v.o.(*Expr); ok {
			return fmt.Sprint(sx(m.ctx.eval(e, m.model), e.w))
		}
		return fmt.Sprint(int64(o.v.n))
	case "bool":
		if e, ok := o.v.o.(*Expr); ok {
			return fmt.Sprint(m.ctx.eval(e, m.model) != 0)
		}
		return fmt.Sprint(o.v.n != 0)
	}
	return "?"
}

func (m *Machine) panicText(tp *targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic value of unknown type"
		}
	}()
	if tp.v.o == nil {
		return "nil"
	}
	i := tp.v.o.(*Iface)
	if tp.rt || i.t == m.p.strRT {
		c, _ := concStr(i.v)
		return c
	}
	return i.t.String()
}

func (m *Machine) candidate(kind, label, msg string) {
	ex := m.ex
	c := &Candidate{Label: label, Msg: msg, Kind: kind, Inputs: m.inputVals()}
	ex.mu.Lock()
	n := ex.candSeen[label]
	ex.candSeen[label] = n + 1
	ex.mu.Unlock()
	if n >= 5 { // at most five replays per distinct failure
		return
	}
	ex.candMu.Lock()
	defer ex.candMu.Unlock()
	ex.mu.Lock()
	done := ex.done
	ex.mu.Unlock()
	if done {
		return
	}
	if ex.onCand != nil && ex.onCand(c) {
		ex.stop("violation found")
	}
}

func sortedKeys[T any](m map[string]T) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
