package vshim

import (
	"bytes"
	"os"
	"runtime"
	"strconv"
	"sync"
)

// Cooperative scheduler mirroring the engine: one goroutine of the group runs
// at a time; at every point the recorded schedule may hand over to another.

type thread struct {
	id     int
	resume chan struct{}
	done   bool
	ready  func() bool
}

var (
	parMu    sync.Mutex
	threads  []*thread
	byGid    = map[int64]*thread{}
	budget   int
	schedPos int
	active   bool
	diverged bool
	// Deadlock is set when no thread could proceed.
	Deadlock bool
)

func gid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	i := bytes.IndexByte(s, ' ')
	n, _ := strconv.ParseInt(string(s[:i]), 10, 64)
	return n
}

func self() *thread {
	parMu.Lock()
	defer parMu.Unlock()
	if !active {
		return nil
	}
	return byGid[gid()]
}

func parPoint(what string) {
	me := self()
	if me == nil || budget <= 0 {
		return
	}
	var run []*thread
	for _, t := range threads {
		if t != me && !t.done && (t.ready == nil || t.ready()) {
			run = append(run, t)
		}
	}
	if len(run) == 0 {
		return
	}
	c := 0
	if schedPos < len(Sched) {
		c = Sched[schedPos]
	}
	if schedPos < len(Points) && Points[schedPos] != what && !diverged {
		diverged = true
		println("DIVERGED at", schedPos, "of", len(Points), "expected", Points[schedPos], "got", what)
	}
	schedPos++
	if c == 0 || c > len(run) {
		return
	}
	budget--
	handover(me, run[c-1])
}

func handover(me, t *thread) {
	if me == t {
		return
	}
	t.resume <- struct{}{}
	<-me.resume
}

func pick(me *thread) *thread {
	start := 0
	for i, t := range threads {
		if t == me {
			start = i
		}
	}
	for k := 1; k <= len(threads); k++ {
		t := threads[(start+k)%len(threads)]
		if !t.done && (t.ready == nil || t.ready()) {
			return t
		}
	}
	return nil
}

func waitUntil(me *thread, ok func() bool) {
	for !ok() {
		me.ready = ok
		t := pick(me)
		if t == nil {
			Deadlock = true
			panic("deadlock")
		}
		if t != me {
			handover(me, t)
		}
		me.ready = nil
	}
}

// RunPar runs fns as cooperative threads; the caller is thread 0 and waits.
func RunPar(preempt int, fns []func()) {
	if os.Getenv("VREPLAY_FREE") != "" {
		// for the race detector: as they come
		var wg sync.WaitGroup
		for _, f := range fns {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				f()
			}()
		}
		wg.Wait()
		return
	}
	main := &thread{id: 0, resume: make(chan struct{})}
	parMu.Lock()
	threads = []*thread{main}
	byGid = map[int64]*thread{gid(): main}
	budget = preempt
	active = true
	parMu.Unlock()
	left := len(fns)
	var failure any
	for i, f := range fns {
		f := f // the module language version shares loop variables
		t := &thread{id: i + 1, resume: make(chan struct{})}
		threads = append(threads, t)
		go func() {
			<-t.resume
			parMu.Lock()
			byGid[gid()] = t
			parMu.Unlock()
			func() {
				defer func() {
					if r := recover(); r != nil && failure == nil {
						failure = r
					}
				}()
				f()
			}()
			t.done = true
			left--
			n := pick(t)
			if n == nil {
				n = main
			}
			n.resume <- struct{}{}
		}()
	}
	waitUntil(main, func() bool { return left == 0 || failure != nil })
	parMu.Lock()
	active = false
	parMu.Unlock()
	if failure != nil {
		panic(failure)
	}
}

type tryLocker interface {
	TryLock() bool
	Lock()
	Unlock()
}

// Lock acquires l cooperatively.
func Lock(l tryLocker) {
	me := self()
	if me == nil {
		l.Lock()
		return
	}
	parPoint("Lock")
	waitUntil(me, func() bool {
		if l.TryLock() {
			l.Unlock()
			return true
		}
		return false
	})
	l.Lock()
}

// Unlock releases l.
func Unlock(l tryLocker) {
	l.Unlock()
	if self() != nil {
		parPoint("Unlock")
	}
}

type rwLocker interface {
	TryRLock() bool
	RLock()
	RUnlock()
}

// RLock acquires l for reading cooperatively.
func RLock(l rwLocker) {
	me := self()
	if me == nil {
		l.RLock()
		return
	}
	parPoint("RLock")
	waitUntil(me, func() bool {
		if l.TryRLock() {
			l.RUnlock()
			return true
		}
		return false
	})
	l.RLock()
}

// RUnlock releases l.
func RUnlock(l rwLocker) {
	l.RUnlock()
	if self() != nil {
		parPoint("RUnlock")
	}
}
