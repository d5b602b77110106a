package main

import (
	"fmt"
	"go/types"
)

// Atomic operations and sync.Map: a harness runs one goroutine, so they are
// plain memory accesses that count as synchronised with other goroutines.

var anyType = types.NewInterfaceType(nil, nil)

func cell(v V) *V {
	p, ok := v.o.(*V)
	if !ok {
		panic(engineErr("atomic operation on an unusual pointer"))
	}
	return p
}

func truth(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

// syncMap gives the contents of a sync.Map.
func (m *Machine) syncMap(v V) *Map {
	p := cell(v)
	if l, ok := m.pools[p]; ok {
		return l[0].o.(*Map)
	}
	mp := newMap(anyType)
	m.pools[p] = []V{{o: mp}}
	return mp
}

func locked(f intrinsic) intrinsic {
	return func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		m.locked = true
		return f(m, fr, fn, a)
	}
}

func initAtomics() {
	for _, t := range []struct {
		name string
		w    uint
		s    bool
	}{{"Int32", 32, true}, {"Int64", 64, true}, {"Uint32", 32, false}, {"Uint64", 64, false}, {"Uintptr", 64, false}, {"Pointer", 0, false}} {
		intrinsics["sync/atomic.Load"+t.name] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V { return *cell(a[0]) })
		intrinsics["sync/atomic.Store"+t.name] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V { *cell(a[0]) = a[1]; return V{} })
		intrinsics["sync/atomic.Swap"+t.name] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			p := cell(a[0])
			old := *p
			*p = a[1]
			return old
		})
		intrinsics["sync/atomic.CompareAndSwap"+t.name] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			p := cell(a[0])
			if _, ok := p.o.(*Expr); ok {
				panic(engineErr("atomic operation on a symbolic value"))
			}
			if *p != a[1] {
				return V{}
			}
			*p = a[2]
			return V{n: 1}
		})
		if t.w == 0 {
			continue
		}
		intrinsics["sync/atomic.Add"+t.name] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V {
			p := cell(a[0])
			if p.o != nil || a[1].o != nil {
				panic(engineErr("atomic operation on a symbolic value"))
			}
			n := p.n + a[1].n
			switch {
			case t.w == 32 && t.s:
				n = uint64(int64(int32(n)))
			case t.w == 32:
				n = uint64(uint32(n))
			}
			p.n = n
			return V{n: n}
		})
	}
	pre := "(*sync.Map)."
	intrinsics[pre+"Load"] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		if e, _, _ := m.mapFind(m.syncMap(a[0]), a[1]); e != nil {
			return tup(e.v, truth(true))
		}
		return tup(V{}, truth(false))
	})
	intrinsics[pre+"Store"] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		m.mapSet(m.syncMap(a[0]), a[1], a[2])
		return V{}
	})
	intrinsics[pre+"LoadOrStore"] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		mp := m.syncMap(a[0])
		if e, _, _ := m.mapFind(mp, a[1]); e != nil {
			return tup(e.v, truth(true))
		}
		m.mapSet(mp, a[1], a[2])
		return tup(a[2], truth(false))
	})
	intrinsics[pre+"LoadAndDelete"] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		mp := m.syncMap(a[0])
		e, _, _ := m.mapFind(mp, a[1])
		if e == nil {
			return tup(V{}, truth(false))
		}
		v := e.v
		m.mapRemove(mp, e)
		return tup(v, truth(true))
	})
	intrinsics[pre+"Delete"] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		m.mapDelete(m.syncMap(a[0]), a[1])
		return V{}
	})
	intrinsics[pre+"Clear"] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		delete(m.pools, cell(a[0]))
		return V{}
	})
	intrinsics[pre+"Range"] = locked(func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		c, ok := a[1].o.(*Closure)
		if !ok {
			panic(engineErr(fmt.Sprintf("sync.Map.Range with %T", a[1].o)))
		}
		for _, e := range append([]*mapEntry(nil), m.syncMap(a[0]).entries...) {
			if e.deleted {
				continue
			}
			if r := m.callV(fr, c.fn, []V{e.k, e.v}, c.env); r.o == nil && r.n == 0 {
				break
			}
		}
		return V{}
	})
	intrinsics["(*sync.Mutex).TryLock"] = func(m *Machine, fr *Frame, fn *Fn, a []V) V { lock(m, fr, fn, a); return V{n: 1} }
	intrinsics["(*sync.WaitGroup).Add"] = noop
	intrinsics["(*sync.WaitGroup).Done"] = noop
}
