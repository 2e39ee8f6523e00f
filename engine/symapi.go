package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func (x *X) input(name, kind string, w uint8) *Term {
	t := x.fresh(w, name)
	x.inputs = append(x.inputs, Input{Name: name, Kind: kind, W: w, T: t})
	return t
}

func regSym(name string, f Intrinsic) { reg(symPkg+name, f) }

func (x *X) label(v Value) string {
	s, ok := v.(string)
	if !ok {
		unsup("symbolic label")
	}
	return s
}

func (x *X) boolTerms(v Value) []*Term {
	var out []*Term
	for _, e := range variadic(v) {
		out = append(out, x.termW(e, 0))
	}
	return out
}

func init() {
	regSym("Tier", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if x.w.eng.tier == "thorough" {
			return uint64(1)
		}
		return uint64(0)
	})
	regSym("Symbolic", ret(true))
	regSym("Int", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		lo, hi := int64(a[1].(uint64)), int64(a[2].(uint64))
		if lo == hi {
			return a[1]
		}
		if lo > hi {
			unsup("sym.Int: empty range")
		}
		t := x.input(x.label(a[0]), "int", 64)
		if v := int64(x.model[t.name]); v < lo || v > hi {
			x.model[t.name] = uint64(lo)
		}
		p := x.w.pool
		x.addPC(p.And(p.Cmp(OpSle, p.Const(64, uint64(lo)), t), p.Cmp(OpSle, t, p.Const(64, uint64(hi)))))
		return t
	})
	regSym("Uint64", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.input(x.label(a[0]), "u64", 64) })
	regSym("Byte", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.input(x.label(a[0]), "byte", 8) })
	regSym("Bool", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.input(x.label(a[0]), "bool", 8)
		p := x.w.pool
		x.addPC(p.Cmp(OpUle, t, p.Const(8, 1)))
		return fromTerm(p.Eq(t, p.Const(8, 1)))
	})
	regSym("Choose", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := x.concInt(a[1])
		if n <= 1 {
			return uint64(0)
		}
		t := x.input(x.label(a[0]), "choose", 16)
		return uint64(x.pick(t, n))
	})
	regSym("String", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := x.concInt(a[1])
		b := make([]Value, n)
		for i := range b {
			b[i] = x.input(fmt.Sprintf("%s.%d", x.label(a[0]), i), "byte", 8)
		}
		return mkStr(b)
	})
	regSym("Chars", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := x.concInt(a[2])
		al := x.label(a[1])
		p := x.w.pool
		b := make([]Value, n)
		for i := range b {
			t := x.input(fmt.Sprintf("%s.%d", x.label(a[0]), i), "byte", 8)
			var ors []*Term
			ok := false
			for _, c := range []byte(al) {
				ors = append(ors, p.Eq(t, p.Const(8, uint64(c))))
				if x.model[t.name] == uint64(c) {
					ok = true
				}
			}
			if !ok {
				x.model[t.name] = uint64(al[0])
			}
			x.addPC(p.Or(ors...))
			b[i] = t
		}
		return mkStr(b)
	})
	regSym("Concrete", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return uint64(int64(x.concInt(a[0]))) })
	regSym("ConcreteStr", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := strBytes(a[0])
		for i := range b {
			if t, ok := b[i].(*Term); ok {
				b[i] = x.concretize(t)
			}
		}
		return mkStr(b)
	})
	regSym("Assume", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { x.assume(a[0]); return nil })
	regSym("Assert", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.assert(a[0], x.concStr(a[1]))
		return nil
	})
	regSym("Reach", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.reached[x.label(a[0])] = true
		return nil
	})
	regSym("Observe", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[1].(Iface)
		v := i.V
		if s, ok := v.([]Value); ok {
			v = append([]Value{}, s...)
		}
		x.obs = append(x.obs, obsEntry{x.label(a[0]), v, i.T})
		return nil
	})
	regSym("And", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return fromTerm(x.w.pool.And(x.boolTerms(a[0])...))
	})
	regSym("Or", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return fromTerm(x.w.pool.Or(x.boolTerms(a[0])...))
	})
	regSym("Not", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.notV(a[0]) })
	regSym("Implies", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.orV(x.notV(a[0]), a[1]) })
	regSym("Ite", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return fromTerm(x.w.pool.Ite(x.termW(a[0], 0), x.termW(a[1], 64), x.termW(a[2], 64)))
	})
	regSym("Root", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.fsMkdirAll("/tmp/vferry-0")
		return "/tmp/vferry-0"
	})
	regSym("MapOrder", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.mapOrder = a[0].(bool)
		return nil
	})
	regSym("Crash", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.runRegion(fr, "crash", a[0]) })
	regSym("Fault", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.runRegion(fr, "fault", a[0]) })
	regSym("During", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.probe = a[1]
		return x.runRegion(fr, "during", a[0])
	})
	regSym("Slow", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.slow = int64(x.concInt(a[0]))
		return x.runRegion(fr, "slow", a[1])
	})
	regSym("OtherPID", ret(uint64(otherPID)))
	regSym("Ops", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, _ := x.shadow["ops"].(int)
		return uint64(n)
	})
	regSym("Panics", func(x *X, fr *Frame, fn *ssa.Function, a []Value) (res Value) {
		cur := x.cur
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					x.w.eng.note("target panic caught by the harness: %s", x.panicText(tp))
					x.cur = cur
					x.cur.fr = fr
					res = true
					return
				}
				panic(r)
			}
		}()
		x.callValue(fr, a[0], nil)
		return false
	})
	regSym("Wait", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		lim := x.now + int64(x.concInt(a[0]))
		expired := false
		x.addTimer(lim-x.now, func() { expired = true })
		for {
			if x.truth(x.callValue(fr, a[1], nil)) {
				return true
			}
			if expired {
				return false
			}
			tick := false
			x.addTimer(100e6, func() { tick = true })
			x.waitUntil(func() bool { return tick })
		}
	})
	regSym("Par", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		fns := variadic(a[1])
		left := len(fns)
		x.preempt = x.concInt(a[0])
		x.schedOn = true
		for _, f := range fns {
			f := f
			x.spawn(&Closure{Nat: func(x *X, fr *Frame, _ []Value) Value {
				x.callValue(fr, f, nil)
				x.raceRelease(&left)
				left--
				return nil
			}}, nil)
		}
		x.waitUntil(func() bool { return left == 0 })
		x.raceAcquire(&left)
		x.schedOn = false
		return nil
	})
	regSym("Markup", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.markup = true
		return nil
	})
	regSym("Elsewhere", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.fsMkdirAll(a[0])
		x.fs.elsewhere = append(x.fs.elsewhere, a[0])
		return nil
	})
	regSym("BadDir", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		_, _, n, _ := x.walk(a[0], true)
		if n != nil {
			n.bad = true
		}
		return nil
	})
	reg(modPath+"src/vharness/vmodel.mksocket", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if _, _, n, _ := x.walk(a[0], true); n != nil {
			n.sock = true
		}
		return nil
	})
	reg(modPath+"src/vharness/vrun.Maybe", zeroI)
}

// runRegion runs a closure with an armed crash or fault at a symbolic
// operation index.
func (x *X) runRegion(fr *Frame, mode string, f Value) (res Value) {
	t := x.input(mode, "op", 16)
	if x.crash != nil {
		unsup("nested crash regions")
	}
	if _, ok := x.model[t.name]; !ok {
		// default: beyond the last operation, so that the plain run comes first
		x.model[t.name] = 60000
	}
	c := &crashState{mode: mode, target: t, thread: x.cur, delay: x.slow}
	x.crash = c
	cur := x.cur
	nthreads := len(x.threads)
	defer func() {
		x.shadow["ops"] = c.n
		x.crash = nil
		if r := recover(); r != nil {
			if _, ok := r.(crashUnwind); ok {
				x.cur = cur
				x.cur.fr = fr
				x.inOp = 0
				x.afterCrash(nthreads)
				res = true
				return
			}
			panic(r)
		}
	}()
	x.callValue(fr, f, nil)
	return mode != "crash" && c.hit
}

// afterCrash drops what dies with a process: descriptors, locks, handles.
func (x *X) afterCrash(nthreads int) {
	for fd, of := range x.fs.fds {
		if !of.std {
			of.closed = true
			delete(x.fs.fds, fd)
		}
	}
	x.fs.flock = map[*inode]map[*openFile]bool{}
	for _, kv := range x.kv {
		if kv.open != nil {
			kv.open.closed = true
			kv.open = nil
		}
	}
	if len(x.threads) > nthreads {
		unsup("crash with background threads")
	}
}
