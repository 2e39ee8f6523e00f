package main

// Conditions on a single byte are decided exactly from the set of values the
// byte can still have, as long as no constraint relates it to another
// variable; everything else goes to the solver.

import "strings"

type dom [4]uint64

func (d *dom) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }

func (d *dom) has(i uint64) bool { return d[i>>6]>>(i&63)&1 == 1 }

func (d dom) and(o *dom) dom {
	for i := range d {
		d[i] &= o[i]
	}
	return d
}

func (d dom) minus(o *dom) dom {
	for i := range d {
		d[i] &^= o[i]
	}
	return d
}

func (d *dom) first() uint64 {
	for i := uint64(0); i < 256; i++ {
		if d.has(i) {
			return i
		}
	}
	panic("empty domain")
}

func fullDom(w uint8) (d dom) {
	for i := uint64(0); i <= mask(w) && i < 256; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return
}

var noVar, manyVars = &Term{}, &Term{}

// unary returns the only variable of a term, if it has one of at most 8 bits.
func (w *Worker) unary(t *Term) *Term {
	switch t.op {
	case OpConst:
		return noVar
	case OpVar:
		if t.w > 8 {
			return manyVars
		}
		return t
	}
	if r, ok := w.unaryMemo[t]; ok {
		return r
	}
	r := noVar
	for _, a := range t.a {
		v := w.unary(a)
		if v == noVar || v == r {
			continue
		}
		if r != noVar {
			r = manyVars
			break
		}
		r = v
	}
	if w.unaryMemo == nil {
		w.unaryMemo = map[*Term]*Term{}
	}
	w.unaryMemo[t] = r
	return r
}

// sat is the set of values of its variable for which a unary condition holds.
func (w *Worker) sat(t, v *Term) *dom {
	if r, ok := w.domMemo[t]; ok {
		return r
	}
	d := &dom{}
	m := Model{}
	for i := uint64(0); i <= mask(v.w); i++ {
		m[v.name] = i
		if w.pool.Eval(t, m) == 1 {
			d[i>>6] |= 1 << (i & 63)
		}
	}
	if w.domMemo == nil {
		w.domMemo = map[*Term]*dom{}
	}
	w.domMemo[t] = d
	return d
}

func (x *X) domOf(v *Term) dom {
	if d, ok := x.doms[v]; ok {
		return d
	}
	d := fullDom(v.w)
	if isDigit(v) {
		// total by definition, and always related to the number
		for i := uint64(10); i < 256; i++ {
			d[i>>6] &^= 1 << (i & 63)
		}
		x.relate(v)
	}
	return d
}

func isDigit(v *Term) bool { return v.op == OpVar && strings.HasSuffix(v.name, "_dig:8") }

// learn records a constraint of the path condition.
func (x *X) learn(t *Term) {
	if t.op == OpAnd {
		for _, a := range t.a {
			x.learn(a)
		}
		return
	}
	v := x.w.unary(t)
	if v == noVar {
		return
	}
	if v != manyVars {
		if x.doms == nil {
			x.doms = map[*Term]dom{}
		}
		x.doms[v] = x.domOf(v).and(x.w.sat(t, v))
		return
	}
	x.relate(t)
}

// relate marks the variables of a constraint on several of them.
func (x *X) relate(t *Term) {
	if t.op == OpConst || x.related[t] {
		return
	}
	if x.related == nil {
		x.related = map[*Term]bool{}
	}
	x.related[t] = true
	for _, a := range t.a {
		x.relate(a)
	}
}

// local reports the byte a condition is about, if its domain decides it.
func (x *X) local(t *Term) *Term {
	v := x.w.unary(t)
	if v == noVar || v == manyVars {
		return nil
	}
	if isDigit(v) {
		x.relate(v)
	}
	return v
}

// with is the current model with another value for one variable.
func (x *X) with(v *Term, val uint64) Model {
	m := make(Model, len(x.model)+1)
	for k, o := range x.model {
		m[k] = o
	}
	m[v.name] = val
	return m
}
