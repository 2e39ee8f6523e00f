package main

// Cooperative threads with virtual time. Exactly one thread runs at any
// moment; switches happen when a thread blocks or at preemption points.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Thread struct {
	x      *X
	id     int
	fr     *Frame
	resume chan struct{}
	done   bool
	main   bool
	ready  func() bool // nil = runnable
	ended  chan struct{}
	vc     vclock
}

type vtimer struct {
	at      int64
	fn      func()
	stopped bool
	seq     int
}

func (x *X) spawn(f Value, args []Value) {
	x.nthread++
	t := &Thread{x: x, id: x.nthread, resume: make(chan struct{}), ended: make(chan struct{})}
	t.vc = x.cur.clock().clone()
	t.vc[t.id] = 1
	x.cur.vc[x.cur.id]++
	x.threads = append(x.threads, t)
	go func() {
		<-t.resume
		func() {
			defer func() {
				r := recover()
				t.done = true
				if r == nil {
					return
				}
				switch r := r.(type) {
				case pathEnd:
					if r.kind != "kill" || !x.killing {
						x.abort = r
					}
				case targetPanic, crashUnwind:
					x.abort = r
				case unsupported:
					x.abort = pathEnd{"unsupported", r.why}
				default:
					x.abort = pathEnd{"unsupported", fmt.Sprintf("engine: %v", r)}
				}
			}()
			if x.killing {
				panic(pathEnd{"kill", ""})
			}
			x.callValue(nil, f, args)
		}()
		close(t.ended)
		if x.killing {
			return
		}
		// hand over: to main when aborting, else to anybody runnable
		next := x.threads[0]
		if x.abort == nil {
			next = x.pickNext(t)
		}
		x.cur = next
		next.resume <- struct{}{}
	}()
}

func (x *X) killThreads() {
	x.killing = true
	for _, t := range x.threads {
		if t.main || t.done {
			continue
		}
		t.resume <- struct{}{}
		<-t.ended
	}
	x.threads = x.threads[:1]
	x.killing = false
}

// pickNext finds a runnable thread, advancing virtual time if necessary.
// It returns the main thread with abort set on deadlock.
func (x *X) pickNext(self *Thread) *Thread {
	for {
		n := len(x.threads)
		start := 0
		for i, t := range x.threads {
			if t == self {
				start = i
			}
		}
		for k := 1; k <= n; k++ {
			t := x.threads[(start+k)%n]
			if t.done {
				continue
			}
			if t.ready == nil || t.ready() {
				return t
			}
		}
		if !x.advance() {
			x.abort = pathEnd{"deadlock", "all threads blocked: " + x.blockedWhere()}
			return x.threads[0]
		}
	}
}

func (x *X) blockedWhere() string {
	s := ""
	for _, t := range x.threads {
		if !t.done && t.fr != nil {
			s += fmt.Sprintf("[thread %d at %s]", t.id, t.fr.where())
		}
	}
	return s
}

func (x *X) advance() bool {
	var best *vtimer
	bi := -1
	for i, tm := range x.timers {
		if tm.stopped {
			continue
		}
		if best == nil || tm.at < best.at || (tm.at == best.at && tm.seq < best.seq) {
			best, bi = tm, i
		}
	}
	if best == nil {
		return false
	}
	x.timers = append(x.timers[:bi:bi], x.timers[bi+1:]...)
	if best.at > x.now {
		x.now = best.at
	}
	best.fn()
	return true
}

func (x *X) addTimer(d int64, fn func()) *vtimer {
	if d < 0 {
		d = 0
	}
	x.nvarTimer++
	t := &vtimer{at: x.now + d, fn: fn, seq: x.nvarTimer}
	x.timers = append(x.timers, t)
	return t
}

func (x *X) switchTo(t *Thread) {
	self := x.cur
	if t == self {
		x.checkAbort(self)
		return
	}
	x.cur = t
	t.resume <- struct{}{}
	<-self.resume
	x.cur = self
	x.checkAbort(self)
}

func (x *X) checkAbort(self *Thread) {
	if x.killing {
		panic(pathEnd{"kill", ""})
	}
	if self.main && x.abort != nil {
		a := x.abort
		x.abort = nil
		panic(a)
	}
}

// waitUntil blocks the current thread until pred holds.
func (x *X) waitUntil(pred func() bool) {
	for !pred() {
		self := x.cur
		self.ready = pred
		t := x.pickNext(self)
		if t == self && x.abort == nil {
			self.ready = nil
			continue
		}
		if x.abort != nil && t == self {
			self.ready = nil
			x.checkAbort(self)
		}
		x.switchTo(t)
		self.ready = nil
	}
}

// yield lets every other runnable thread go first.
func (x *X) yield() {
	self := x.cur
	n := len(x.threads)
	start := 0
	for i, t := range x.threads {
		if t == self {
			start = i
		}
	}
	for k := 1; k < n; k++ {
		t := x.threads[(start+k)%n]
		if !t.done && (t.ready == nil || t.ready()) {
			x.switchTo(t)
			return
		}
	}
}

// yieldPoint is a potential preemption: with budget left, the scheduler may
// hand control to any other runnable thread.
func (x *X) yieldPoint(what string) {
	if x.preempt <= 0 || x.inSharedInit > 0 || !x.schedOn {
		return
	}
	var run []*Thread
	for _, t := range x.threads {
		if t != x.cur && !t.done && (t.ready == nil || t.ready()) {
			run = append(run, t)
		}
	}
	if len(run) == 0 {
		return
	}
	c := x.choose(len(run)+1, "sched")
	x.sched = append(x.sched, c)
	x.points = append(x.points, what)
	if c == 0 {
		return
	}
	x.preempt--
	x.switchTo(run[c-1])
}

// ---- channels

type Chan struct {
	et     types.Type
	cap    int
	buf    []Value
	closed bool
	recvq  int // receivers waiting (unbuffered rendezvous)
	taken  int
}

func (x *X) chanSend(c *Chan, v Value) {
	if c == nil {
		x.waitUntil(func() bool { return false })
	}
	if c.closed {
		panic(targetPanic{x.newError("send on closed channel")})
	}
	if c.cap > 0 {
		x.waitUntil(func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			panic(targetPanic{x.newError("send on closed channel")})
		}
		x.raceRelease(c)
		c.buf = append(c.buf, copyVal(v))
		return
	}
	// unbuffered: deposit, wait until taken
	x.waitUntil(func() bool { return c.closed || len(c.buf) == 0 })
	if c.closed {
		panic(targetPanic{x.newError("send on closed channel")})
	}
	x.raceBoth(c)
	c.buf = append(c.buf, copyVal(v))
	want := c.taken + 1
	x.waitUntil(func() bool { return c.taken >= want || c.closed })
	x.raceAcquire(c)
}

func (x *X) chanRecv(c *Chan) (Value, Value) {
	if c == nil {
		x.waitUntil(func() bool { return false })
	}
	c.recvq++
	x.waitUntil(func() bool { return len(c.buf) > 0 || c.closed })
	c.recvq--
	x.raceBoth(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		c.taken++
		return v, true
	}
	return zero(c.et), false
}

func (x *X) chanClose(c *Chan) {
	if c == nil {
		panic(targetPanic{x.newError("close of nil channel")})
	}
	if c.closed {
		panic(targetPanic{x.newError("close of closed channel")})
	}
	x.raceRelease(c)
	c.closed = true
}

func (x *X) doSelect(fr *Frame, in *ssa.Select) Value {
	type st struct {
		c    *Chan
		send bool
		v    Value
	}
	var sts []st
	for _, s := range in.States {
		e := st{c: fr.get(s.Chan).(*Chan), send: s.Dir == types.SendOnly}
		if e.send {
			e.v = fr.get(s.Send)
		}
		sts = append(sts, e)
	}
	isReady := func(e st) bool {
		if e.c == nil {
			return false
		}
		if e.send {
			return e.c.closed || (e.c.cap > 0 && len(e.c.buf) < e.c.cap) || (e.c.cap == 0 && e.c.recvq > 0 && len(e.c.buf) == 0)
		}
		return len(e.c.buf) > 0 || e.c.closed
	}
	find := func() int {
		for i, e := range sts {
			if isReady(e) {
				return i
			}
		}
		return -1
	}
	idx := find()
	if idx < 0 && in.Blocking {
		for _, e := range sts {
			if e.c != nil && !e.send {
				e.c.recvq++
			}
		}
		x.waitUntil(func() bool { return find() >= 0 })
		for _, e := range sts {
			if e.c != nil && !e.send {
				e.c.recvq--
			}
		}
		idx = find()
	}
	res := Tuple{uint64(int64(idx)), false}
	if idx >= 0 && sts[idx].send {
		x.chanSend(sts[idx].c, sts[idx].v)
	}
	for i, s := range in.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		if i == idx {
			v, ok := x.chanRecv(sts[i].c)
			res[1] = ok
			res = append(res, v)
		} else {
			res = append(res, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	return res
}
