package main

import (
	"go/types"
)

// insertion sorts a slice the way sort.Slice and sort.SliceStable sort short
// ones.
func insertion(max int) intrinsic {
	return func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		if a[0].o == nil {
			return V{}
		}
		s, ok := a[0].o.(*Iface).v.o.(*Slice)
		if !ok || len(s.s) < 2 {
			return V{}
		}
		if len(s.s) > max {
			panic(engineErr("sort of a long slice"))
		}
		less := a[1].o.(*Closure)
		for i := 1; i < len(s.s); i++ {
			for j := i; j > 0; j-- {
				r := m.callV(fr, less.fn, []V{{n: uint64(j)}, {n: uint64(j - 1)}}, less.env)
				if !m.branchV(r) {
					break
				}
				s.s[j], s.s[j-1] = s.s[j-1], s.s[j]
			}
		}
		return V{}
	}
}

// write gives text to an io.Writer.
func (m *Machine) write(fr *Frame, w, text V) V {
	if w.o == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	i := w.o.(*Iface)
	obj, _, _ := types.LookupFieldOrMethod(i.t.t, true, nil, "Write")
	f, ok := obj.(*types.Func)
	if !ok {
		panic(engineErr("no Write on " + i.t.String()))
	}
	bs := append([]V(nil), strBytes(text)...)
	return m.callV(fr, m.p.method(i.t, f), []V{i.v, {o: &Slice{s: bs, el: 1}}}, nil)
}

func initStdlib() {
	intrinsics["sort.Slice"] = insertion(12)
	intrinsics["sort.SliceStable"] = insertion(20)
	intrinsics["fmt.Fprintf"] = func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		return m.write(fr, a[0], m.sprintf(fr, a[1], sliceVals(a[2])))
	}
	intrinsics["fmt.Fprint"] = func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		return m.write(fr, a[0], m.sprint(fr, sliceVals(a[1]), false))
	}
	intrinsics["errors.As"] = func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		t := a[1].o.(*Iface)
		want := m.p.rts.get(deref(t.t.t))
		_, isI := want.t.Underlying().(*types.Interface)
		for e := a[0]; e.o != nil; {
			i := e.o.(*Iface)
			if isI && m.p.implements(i.t, want) {
				*t.v.o.(*V) = e
				return truth(true)
			} else if !isI && i.t == want {
				*t.v.o.(*V) = i.v
				return truth(true)
			}
			obj, _, _ := types.LookupFieldOrMethod(i.t.t, true, nil, "Unwrap")
			f, ok := obj.(*types.Func)
			if !ok {
				break
			}
			if _, ok := f.Signature().Results().At(0).Type().Underlying().(*types.Interface); !ok {
				panic(engineErr("errors.As on joined errors"))
			}
			e = m.callV(fr, m.p.method(i.t, f), []V{i.v}, nil)
		}
		return truth(false)
	}
	intrinsics["errors.Is"] = func(m *Machine, fr *Frame, fn *Fn, a []V) V {
		for e := a[0]; e.o != nil; {
			i := e.o.(*Iface)
			if a[1].o != nil && i.t == a[1].o.(*Iface).t && types.Comparable(i.t.t) && m.branchV(m.eqV(i.v, a[1].o.(*Iface).v, i.t.t)) {
				return truth(true)
			}
			for _, n := range []string{"Is", "Unwrap"} {
				obj, _, _ := types.LookupFieldOrMethod(i.t.t, true, nil, n)
				f, ok := obj.(*types.Func)
				if ok && n == "Is" {
					panic(engineErr("errors.Is with an Is method"))
				}
				if n == "Unwrap" {
					if !ok {
						return truth(false)
					}
					if _, ok := f.Signature().Results().At(0).Type().Underlying().(*types.Interface); !ok {
						panic(engineErr("errors.Is on joined errors"))
					}
					e = m.callV(fr, m.p.method(i.t, f), []V{i.v}, nil)
				}
			}
		}
		return truth(a[1].o == nil)
	}
}
