package main

// Detection of unsynchronised concurrent accesses, of maps anywhere (they end a
// Go program) and of variables while operations run together (sym.Par): a
// happens-before order over threads, kept with vector clocks. Operations of
// the file system and the database order everything before them, so an access
// is only reported when some schedule could bring the two together.

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

type vclock map[int]int

func (a vclock) join(b vclock) {
	for k, v := range b {
		if v > a[k] {
			a[k] = v
		}
	}
}

func (a vclock) clone() vclock {
	c := make(vclock, len(a))
	for k, v := range a {
		c[k] = v
	}
	return c
}

type access struct {
	t, c int
	fn   *ssa.Function
	pos  token.Pos
}

type mapRace struct {
	w *access
	r map[int]access
}

type opsKey struct{}

func (x *X) racing() bool { return len(x.threads) > 1 && x.inSharedInit == 0 }

func (t *Thread) clock() vclock {
	if t.vc == nil {
		t.vc = vclock{t.id: 1}
	}
	return t.vc
}

// raceAcquire orders what was released at key before the current thread.
func (x *X) raceAcquire(key any) {
	if c := x.rel[key]; c != nil {
		x.cur.clock().join(c)
	}
}

// raceRelease orders what the current thread did before later acquirers.
func (x *X) raceRelease(key any) {
	if !x.racing() {
		return
	}
	c := x.cur.clock()
	if x.rel == nil {
		x.rel = map[any]vclock{}
	}
	if x.rel[key] == nil {
		x.rel[key] = vclock{}
	}
	x.rel[key].join(c)
	c[x.cur.id]++
}

func (x *X) raceBoth(key any) {
	x.raceAcquire(key)
	x.raceRelease(key)
}

// raceMapAt checks an access of ferryd code to a map.
func (x *X) raceMapAt(fr *Frame, m *Map, write bool) {
	if m == nil || !x.racing() || fr == nil || !fr.fi.ferryd || x.inOp > 0 {
		return
	}
	if m.race == nil {
		m.race = &mapRace{r: map[int]access{}}
	}
	x.raceAccess(fr, m.race, write, "fatal error: concurrent map access")
}

// raceCell checks an access of ferryd code to a variable that is not on a stack.
func (x *X) raceCell(fr *Frame, addr ssa.Value, v Value, write bool) {
	if !x.schedOn || !fr.fi.ferryd || !x.racing() || x.inOp > 0 {
		return
	}
	p, ok := v.(*Value)
	if !ok || p == nil {
		return
	}
	if a, ok := addr.(*ssa.Alloc); ok && !a.Heap {
		return
	}
	m := x.cells[p]
	if m == nil {
		if x.cells == nil {
			x.cells = map[*Value]*mapRace{}
		}
		m = &mapRace{r: map[int]access{}}
		x.cells[p] = m
	}
	x.raceAccess(fr, m, write, "data race")
}

func (x *X) raceAccess(fr *Frame, m *mapRace, write bool, msg string) {
	c := x.cur.clock()
	me := access{x.cur.id, c[x.cur.id], fr.fn, fr.cur.Pos()}
	after := func(a *access) bool { return a.t == me.t || c[a.t] >= a.c }
	if m.w != nil && !after(m.w) {
		x.raceFound(msg, *m.w, me)
	}
	if !write {
		m.r[me.t] = me
		return
	}
	for _, a := range m.r {
		if !after(&a) {
			x.raceFound(msg, a, me)
		}
	}
	m.w = &me
}

func (x *X) raceFound(msg string, a, b access) {
	where := func(a access) string {
		p := x.w.eng.prog.Fset.Position(a.pos)
		return fmt.Sprintf("%s (%s:%d)", a.fn, p.Filename, p.Line)
	}
	x.report("race", msg, fmt.Sprintf("%s and %s", where(a), where(b)), x.model)
	panic(pathEnd{"reported", "race"})
}
