package main

// Decimal digits are defined by multiplication constraints that are costly for
// the solver. They are total definitions (every value in range has exactly one
// digit string), so a query that mentions none of the digits is decided
// without them; the digits of a model are then computed from the value.

import "strings"

type lazyDef struct {
	digits []*Term
	of     *Term
	cons   *Term
	active bool
}

// digs returns the digit variables of a term.
func (w *Worker) digs(t *Term) []*Term {
	if len(t.a) == 0 {
		if t.op == OpVar && strings.HasSuffix(t.name, "_dig:8") {
			return []*Term{t}
		}
		return nil
	}
	if r, ok := w.digMemo[t]; ok {
		return r
	}
	var out []*Term
	for _, a := range t.a {
		for _, d := range w.digs(a) {
			dup := false
			for _, o := range out {
				dup = dup || o == d
			}
			if !dup {
				out = append(out, d)
			}
		}
	}
	if w.digMemo == nil {
		w.digMemo = map[*Term][]*Term{}
	}
	w.digMemo[t] = out
	return out
}

// needed collects the inactive definitions a term depends on.
func (x *X) needed(t *Term, got map[*lazyDef]bool) {
	if len(x.defs) == 0 {
		return
	}
	for _, d := range x.w.digs(t) {
		for _, df := range x.defs {
			if df.active || got[df] {
				continue
			}
			for _, v := range df.digits {
				if v == d {
					got[df] = true
					x.needed(df.cons, got)
					break
				}
			}
		}
	}
}

// activate makes the definitions a path condition depends on part of it.
func (x *X) activate(t *Term) {
	if len(x.defs) == 0 {
		return
	}
	got := map[*lazyDef]bool{}
	x.needed(t, got)
	for _, df := range x.defs {
		if got[df] {
			df.active = true
			x.pc = append(x.pc, df.cons)
			x.learn(df.cons)
		}
	}
}

// check decides the path condition together with extra.
func (x *X) check(extra *Term) (Result, Model) {
	got := map[*lazyDef]bool{}
	x.needed(extra, got)
	q := extra
	for _, df := range x.defs {
		if got[df] {
			q = x.w.pool.And(q, df.cons)
		}
	}
	res, m := x.w.solver.Check(x.pc, q, x.vars)
	if res == Sat {
		for _, df := range x.defs {
			if df.active || got[df] {
				continue
			}
			v := x.w.pool.Eval(df.of, m)
			for i := len(df.digits) - 1; i >= 0; i-- {
				m[df.digits[i].name] = v % 10
				v /= 10
			}
		}
	}
	return res, m
}
