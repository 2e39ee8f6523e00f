package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]Intrinsic{}

func reg(name string, f Intrinsic) { intrinsics[name] = f }

const symPkg = modPath + "src/vharness/sym."
const ldb = "github.com/syndtr/goleveldb/leveldb"

func (e *Engine) findIntrinsic(name, pkg string, fn *ssa.Function) Intrinsic {
	var f Intrinsic
	if g, ok := intrinsics[name]; ok {
		f = g
	} else if g := originIntrinsic(fn); g != nil {
		f = g
	} else if strings.HasPrefix(pkg, "github.com/sirupsen/logrus") {
		f = logrusStub
	} else if pkg == "sync/atomic" || pkg == "internal/runtime/atomic" {
		if g := atomicIntrinsic(fn); g != nil {
			f = func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
				if len(a) > 0 && x.racing() {
					x.raceBoth(a[0])
				}
				return g(x, fr, fn, a)
			}
		}
	} else if pkg == "math" && fn.Blocks == nil || pkg == "math" && strings.HasPrefix(fn.Name(), "arch") {
		f = mathIntrinsic(fn)
	} else if pkg == "runtime" && fn.Blocks != nil && fn.Synthetic == "" {
		f = runtimeStub
	}
	if m := vmodels[name]; m != "" {
		if p := e.pkgs[modPath+"src/vharness/vmodel"]; p != nil && p.Func(m) != nil {
			mf := p.Func(m)
			f = func(x *X, fr *Frame, fn *ssa.Function, args []Value) Value { return x.call(fr, mf, args, nil) }
		}
	}
	if kind := mutOps[name]; kind != "" && f != nil {
		inner := f
		f = func(x *X, fr *Frame, fn *ssa.Function, args []Value) Value {
			if r, done := x.mutPoint(name, kind, fr, fn, args); done {
				return r
			}
			x.inOp++
			defer func() { x.inOp-- }()
			return inner(x, fr, fn, args)
		}
	} else if kind != "" {
		f = func(x *X, fr *Frame, fn *ssa.Function, args []Value) Value {
			if r, done := x.mutPoint(name, kind, fr, fn, args); done {
				return r
			}
			x.inOp++
			defer func() { x.inOp-- }()
			return x.callBody(fr, fn, args)
		}
	}
	return f
}

// vmodels maps library functions to their stand-ins in package vmodel.
var vmodels = map[string]string{
	"net.Listen": "Listen", "net.Dial": "Dial", "net.DialTimeout": "DialTimeout",
	"(*net/http.Server).Serve": "Serve", "(*net/http.Server).Shutdown": "Shutdown", "(*net/http.Server).Close": "CloseServer",
	"(*net/http.Client).Do": "Do", "(*net/http.Transport).CloseIdleConnections": "CloseIdleConnections",
	"github.com/radu-munteanu/fsnotify.NewWatcher": "NewWatcher", "(*github.com/radu-munteanu/fsnotify.Watcher).Add": "WatcherAdd", "(*github.com/radu-munteanu/fsnotify.Watcher).Close": "WatcherClose",
}

// otherPID is a live process that is not ours.
const otherPID = 777

// callBody interprets fn's body even though an intrinsic wraps it.
func (x *X) callBody(caller *Frame, fn *ssa.Function, args []Value) Value {
	fi := x.w.eng.info(fn)
	fr := &Frame{x: x, caller: caller, fi: fi, fn: fn}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	fr.env = make([]Value, fi.n)
	copy(fr.env, args)
	fr.block = fn.Blocks[0]
	x.cur.fr = fr
	for fr.block != nil {
		x.runFrame(fr)
	}
	x.cur.fr = caller
	return fr.result
}

// ---- crash and fault points

// mutOps lists the calls that count as one operation when made directly from
// ferryd code: "m" mutating (crash and fault point), "t" mutating and possibly torn by a
// crash, "f" failing only, "q" database reading (failing only, never slow), "y"
// a point of the schedule only.
var mutOps = map[string]string{
	"os.Remove": "m", "os.RemoveAll": "m", "os.Rename": "m", "os.Link": "m", "os.Symlink": "m", "os.Mkdir": "m", "os.MkdirAll": "m",
	"os.WriteFile": "t", "os.Create": "m", "os.OpenFile": "m", "os.Truncate": "m", "os.MkdirTemp": "m", "os.CreateTemp": "m",
	"io/ioutil.WriteFile": "t", "io/ioutil.TempDir": "m", "io/ioutil.TempFile": "m",
	"(*os.File).Write": "m", "(*os.File).WriteString": "m", "(*os.File).Truncate": "m", "(*os.File).ReadFrom": "m",
	"io.Copy": "m", "io.CopyN": "m", "io.CopyBuffer": "m",
	"(*os/exec.Cmd).Run": "t", "(*os/exec.Cmd).Output": "t", "(*os/exec.Cmd).CombinedOutput": "t",
	"(*encoding/xml.Encoder).Encode": "f", "(*encoding/xml.Encoder).EncodeElement": "f", "(*encoding/xml.Encoder).EncodeToken": "f", "(*encoding/xml.Encoder).Flush": "f",
	"(*" + ldb + ".DB).Put": "m", "(*" + ldb + ".DB).Delete": "m", "(*" + ldb + ".DB).Write": "m",
	"os.Open": "f", "os.ReadFile": "f", "io/ioutil.ReadFile": "f", "io/ioutil.ReadDir": "f", "os.ReadDir": "f", "syscall.Mmap": "f",
	"(*" + ldb + ".DB).Get": "q", "(*" + ldb + ".DB).Has": "q", "(*" + ldb + ".DB).NewIterator": "q",
	"(*" + ldb + ".DB).Close": "y", "(*os.File).Close": "y", "(*os.File).Seek": "y", "(*os.File).Sync": "y", "syscall.Flock": "y", "os.Stat": "y",
}

type crashState struct {
	mode   string // crash | fault | count
	target *Term  // operation index
	n      int
	ops    []string
	hit    bool
	thread *Thread // the thread that entered the region
	delay  int64   // slow: how long the operation takes
}

// mutPoint numbers operations issued directly by ferryd code and injects the
// armed crash or fault. It returns (result, true) when the operation must not run.
func (x *X) mutPoint(name, kind string, fr *Frame, fn *ssa.Function, args []Value) (Value, bool) {
	if fr == nil || !fr.fi.ferryd || !x.static || x.inOp > 0 || x.inSharedInit > 0 {
		return nil, false
	}
	x.yieldPoint(name)
	x.raceBoth(opsKey{})
	c := x.crash
	if c == nil || c.hit {
		return nil, false
	}
	if c.mode == "during" && c.thread != x.cur || c.mode == "slow" && (c.thread == x.cur || kind == "q") || c.mode != "during" && kind == "y" {
		return nil, false
	}
	if name == "io.Copy" && x.inMemory(args[0]) {
		return nil, false
	}
	if c.mode == "crash" && (kind == "f" || kind == "q") {
		return nil, false
	}
	x.mutLog = append(x.mutLog, name)
	hitAt := func() bool {
		i := c.n
		c.n++
		c.ops = append(c.ops, name)
		return x.truth(fromTerm(x.w.pool.Eq(c.target, x.w.pool.Const(c.target.w, uint64(i)))))
	}
	switch c.mode {
	case "crash":
		if hitAt() {
			c.hit = true
			panic(crashUnwind{1})
		}
		if kind == "t" && hitAt() { // torn: the operation happened in part
			c.hit = true
			x.inOp++
			switch name {
			case "os.WriteFile", "io/ioutil.WriteFile":
				x.fsWrite(args[0], "")
			case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
				x.execTorn(args[0])
			}
			panic(crashUnwind{1})
		}
	case "during":
		if hitAt() {
			c.hit = true
			x.callValue(fr, x.probe, nil)
			x.cur.fr = fr
			x.static = true
		}
	case "slow":
		if hitAt() {
			c.hit = true
			woke := false
			x.addTimer(c.delay, func() { woke = true })
			x.waitUntil(func() bool { return woke })
			x.cur.fr = fr
			x.static = true
		}
	case "fault":
		if hitAt() {
			c.hit = true
			res := fn.Signature.Results()
			err := x.newError("injected fault")
			z := zero(res)
			if strings.HasSuffix(name, ".NewIterator") {
				return x.newIter(nil, err), true
			}
			if res.Len() == 1 {
				if types.Identical(res.At(0).Type(), errorType(x)) {
					return err, true
				}
				return nil, false
			}
			z.(Tuple)[res.Len()-1] = err
			return z, true
		}
	}
	return nil, false
}

// inMemory: copying to a buffer involves no device.
func (x *X) inMemory(dst Value) bool {
	i, ok := dst.(Iface)
	return ok && i.T != nil && i.T.String() == "*bytes.Buffer"
}

// lockPoint is a preemption point at lock operations called by ferryd itself.
func (x *X) lockPoint(fr *Frame, what string) {
	if fr != nil && fr.fi.ferryd && x.static {
		x.yieldPoint(what)
	}
}

// ---- generic helpers

func constI(v Intrinsic) Intrinsic { return v }

func ret(v Value) Intrinsic {
	return func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return v }
}

func zeroI(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return zero(fn.Signature.Results()) }

func runtimeStub(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
	return zero(fn.Signature.Results())
}

func mathIntrinsic(fn *ssa.Function) Intrinsic {
	n := fn.Name()
	return func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := func(i int) float64 { return a[i].(float64) }
		switch n {
		case "Float64bits":
			return math.Float64bits(f(0))
		case "Float64frombits":
			return math.Float64frombits(a[0].(uint64))
		case "archFloor":
			return math.Floor(f(0))
		case "archCeil":
			return math.Ceil(f(0))
		case "archTrunc":
			return math.Trunc(f(0))
		case "archSqrt", "sqrt":
			return math.Sqrt(f(0))
		}
		unsup("math.%s", n)
		return nil
	}
}

func logrusStub(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
	n := fn.Name()
	if strings.HasPrefix(n, "Fatal") || n == "Exit" {
		panic(pathEnd{"exit", "log." + n})
	}
	if strings.HasPrefix(n, "Panic") {
		panic(targetPanic{x.newError("log." + n)})
	}
	res := fn.Signature.Results()
	if fn.Synthetic == "package initializer" {
		return nil
	}
	if res.Len() == 1 {
		if p, ok := res.At(0).Type().(*types.Pointer); ok {
			q := new(Value)
			*q = zero(p.Elem())
			return q
		}
	}
	return zero(res)
}

func atomicIntrinsic(fn *ssa.Function) Intrinsic {
	n := fn.Name()
	if fn.Blocks != nil && fn.Signature.Recv() != nil {
		if strings.Contains(fn.String(), "atomic.Value)") {
			switch n {
			case "Load":
				return func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
					if v, ok := x.shadow[a[0]].(Iface); ok {
						return v
					}
					return Iface{}
				}
			case "Store":
				return func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
					x.shadow[a[0]] = a[1]
					return nil
				}
			}
		}
		return nil
	}
	var mk func(op string, t types.Type) Intrinsic
	mk = func(op string, t types.Type) Intrinsic {
		return func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			p := x.deref(a[0])
			switch op {
			case "load":
				return *p
			case "store":
				*p = a[1]
				return nil
			case "swap":
				o := *p
				*p = a[1]
				return o
			case "cas":
				pt := fn.Signature.Params().At(1).Type()
				if x.truth(x.equal(pt, *p, a[1])) {
					*p = a[2]
					return true
				}
				return false
			case "add":
				w := widthOf(fn.Signature.Params().At(1).Type())
				*p = fromTerm(x.w.pool.BV(OpAdd, x.termW(*p, w), x.termW(a[1], w)))
				return *p
			case "and", "or":
				w := widthOf(fn.Signature.Params().At(1).Type())
				o := *p
				k := OpBAnd
				if op == "or" {
					k = OpBOr
				}
				*p = fromTerm(x.w.pool.BV(k, x.termW(*p, w), x.termW(a[1], w)))
				return o
			}
			return nil
		}
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return mk("load", nil)
	case strings.HasPrefix(n, "Store"):
		return mk("store", nil)
	case strings.HasPrefix(n, "Swap"), strings.HasPrefix(n, "Xchg"):
		return mk("swap", nil)
	case strings.HasPrefix(n, "CompareAndSwap"), strings.HasPrefix(n, "Cas"):
		return mk("cas", nil)
	case strings.HasPrefix(n, "Add"), strings.HasPrefix(n, "Xadd"):
		return mk("add", nil)
	case strings.HasPrefix(n, "And"):
		return mk("and", nil)
	case strings.HasPrefix(n, "Or"):
		return mk("or", nil)
	}
	return nil
}

type mutexState struct {
	locked  bool
	readers int
}

func (x *X) mutex(p Value) *mutexState {
	if pp, ok := p.(*Value); ok && pp == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	m, _ := x.shadow[p].(*mutexState)
	if m == nil {
		m = &mutexState{}
		x.shadow[p] = m
	}
	return m
}

func init() {
	// ---- sync
	lock := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := x.mutex(a[0])
		x.lockPoint(fr, "Lock")
		x.waitUntil(func() bool { return !m.locked && m.readers == 0 })
		m.locked = true
		x.raceAcquire(m)
		x.raceAcquire(&m.readers)
		return nil
	}
	unlock := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := x.mutex(a[0])
		if !m.locked {
			panic(targetPanic{x.newError("fatal error: sync: unlock of unlocked mutex")})
		}
		x.raceRelease(m)
		m.locked = false
		x.lockPoint(fr, "Unlock")
		return nil
	}
	try := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := x.mutex(a[0])
		if m.locked || m.readers > 0 {
			return false
		}
		m.locked = true
		x.raceAcquire(m)
		x.raceAcquire(&m.readers)
		return true
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		reg(t+".Lock", lock)
		reg(t+".Unlock", unlock)
		reg(t+".TryLock", try)
	}
	reg("(*sync.RWMutex).RLock", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := x.mutex(a[0])
		x.lockPoint(fr, "RLock")
		x.waitUntil(func() bool { return !m.locked })
		m.readers++
		x.raceAcquire(m)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := x.mutex(a[0])
		if m.readers == 0 {
			panic(targetPanic{x.newError("fatal error: sync: RUnlock of unlocked RWMutex")})
		}
		x.raceRelease(&m.readers)
		m.readers--
		x.lockPoint(fr, "RUnlock")
		return nil
	})
	type wg struct{ n int }
	wgOf := func(x *X, p Value) *wg {
		w, _ := x.shadow[p].(*wg)
		if w == nil {
			w = &wg{}
			x.shadow[p] = w
		}
		return w
	}
	reg("(*sync.WaitGroup).Add", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		w := wgOf(x, a[0])
		w.n += x.concInt(a[1])
		if w.n < 0 {
			panic(targetPanic{x.newError("sync: negative WaitGroup counter")})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		w := wgOf(x, a[0])
		x.raceRelease(w)
		w.n--
		if w.n < 0 {
			panic(targetPanic{x.newError("sync: negative WaitGroup counter")})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		w := wgOf(x, a[0])
		x.waitUntil(func() bool { return w.n == 0 })
		x.raceAcquire(w)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		w := wgOf(x, a[0])
		w.n++
		f := a[1]
		x.spawn(&Closure{Nat: func(x *X, fr *Frame, _ []Value) Value {
			x.callValue(fr, f, nil)
			x.raceRelease(w)
			w.n--
			return nil
		}}, nil)
		return nil
	})
	type once struct{ done, running bool }
	reg("(*sync.Once).Do", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		sh := x.shadow
		if x.inSharedInit > 0 {
			sh = x.w.sharedShadow
		}
		o, _ := sh[a[0]].(*once)
		if o == nil {
			if so, ok := x.w.sharedShadow[a[0]].(*once); ok {
				o = so
			} else {
				o = &once{}
				sh[a[0]] = o
			}
		}
		x.waitUntil(func() bool { return !o.running })
		if o.done {
			x.raceAcquire(o)
			return nil
		}
		o.running = true
		defer func() { x.raceRelease(o) }()
		defer func() { o.running = false; o.done = true }()
		x.callValue(fr, a[1], nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := *x.deref(a[0])
		f := x.getField(p.(Struct), x.w.eng.typeByName("sync", "Pool"), "New")
		if isNilFunc(f) {
			return Iface{}
		}
		return x.callValue(fr, f, nil)
	})
	reg("(*sync.Pool).Put", zeroI)
	reg("sync.runtime_registerPoolCleanup", zeroI)
	smap := func(x *X, p Value) *Map {
		x.raceBoth(p)
		m, _ := x.shadow[p].(*Map)
		if m == nil {
			m = newMap(types.NewInterfaceType(nil, nil))
			x.shadow[p] = m
		}
		return m
	}
	reg("(*sync.Map).Load", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if e := x.mapFind(smap(x, a[0]), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.mapSet(smap(x, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if e := x.mapFind(smap(x, a[0]), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		x.mapSet(smap(x, a[0]), a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).Delete", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.mapDelete(smap(x, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		for _, e := range append([]*mapEntry{}, smap(x, a[0]).ents...) {
			if !x.truth(x.callValue(fr, a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	})
	type cond struct{ gen, waiting, wake int }
	cv := func(x *X, p Value) *cond {
		x.raceBoth(p)
		c, _ := x.shadow[p].(*cond)
		if c == nil {
			c = &cond{}
			x.shadow[p] = c
		}
		return c
	}
	reg("(*sync.Cond).Wait", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cv(x, a[0])
		l := x.getField((*x.deref(a[0])).(Struct), x.w.eng.typeByName("sync", "Cond"), "L").(Iface)
		c.waiting++
		x.callMethod(fr, l, "Unlock")
		x.waitUntil(func() bool { return c.wake > 0 })
		c.wake--
		c.waiting--
		x.callMethod(fr, l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cv(x, a[0])
		if c.wake < c.waiting {
			c.wake++
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cv(x, a[0])
		c.wake = c.waiting
		return nil
	})

	// ---- runtime
	reg("runtime.NumCPU", ret(uint64(4)))
	reg("runtime.GOMAXPROCS", ret(uint64(4)))
	reg("runtime.Gosched", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { x.yield(); return nil })
	reg("runtime.SetFinalizer", zeroI)
	reg("runtime.KeepAlive", zeroI)
	reg("runtime.GC", zeroI)
	reg("runtime.Callers", ret(uint64(0)))
	reg("runtime/debug.SetGCPercent", ret(uint64(100)))
	reg("runtime/debug.FreeOSMemory", zeroI)
	reg("internal/godebug.New", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = zero(x.w.eng.typeByName("internal/godebug", "Setting"))
		return p
	})
	reg("(*internal/godebug.Setting).Value", ret(""))
	reg("(*internal/godebug.Setting).IncNonDefault", zeroI)
	reg("internal/race.Acquire", zeroI)
	reg("internal/testlog.Getenv", zeroI)
	reg("internal/testlog.Open", zeroI)
	reg("internal/abi.NoEscape", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] })

	// ---- math/rand
	for _, p := range []string{"math/rand.", "math/rand/v2.", "(*math/rand.Rand).", "(*math/rand/v2.Rand)."} {
		for _, n := range []string{"Intn", "Int31n", "Int63n", "IntN", "Int64N", "Int32N"} {
			reg(p+n, func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
				if x.concInt(a[len(a)-1]) <= 0 {
					panic(targetPanic{x.newError("invalid argument to Intn")})
				}
				return uint64(0)
			})
		}
		for _, n := range []string{"Int", "Int31", "Int63", "Uint32", "Uint64", "Seed", "Float64"} {
			reg(p+n, func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
				if fn.Name() == "Float64" {
					return 0.25
				}
				if fn.Signature.Results().Len() == 0 {
					return nil
				}
				x.ntemp++
				return uint64(x.ntemp)
			})
		}
	}
	reg("math/rand.NewSource", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.w.eng.typeByName("math/rand", "rngSource")
		p := new(Value)
		*p = Struct{}
		return Iface{T: x.w.eng.ptrTo(t), V: p}
	})

	// ---- internal/bytealg (assembly)
	bytesOf := func(v Value) []Value {
		if s, ok := v.([]Value); ok {
			return s
		}
		return strBytes(v)
	}
	idxByte := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(uint64); ok {
				return uint64(int64(strings.IndexByte(s, byte(c))))
			}
		}
		for i, b := range bytesOf(a[0]) {
			if x.truth(x.equal(types.Typ[types.Uint8], b, a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	reg("internal/bytealg.IndexByte", idxByte)
	reg("internal/bytealg.IndexByteString", idxByte)
	lastIdx := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		bs := bytesOf(a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if x.truth(x.equal(types.Typ[types.Uint8], bs[i], a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	reg("internal/bytealg.LastIndexByte", lastIdx)
	reg("internal/bytealg.LastIndexByteString", lastIdx)
	count := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := uint64(0)
		for _, b := range bytesOf(a[0]) {
			if x.truth(x.equal(types.Typ[types.Uint8], b, a[1])) {
				n++
			}
		}
		return n
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	eq := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.strEq(mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1])))
	}
	reg("internal/bytealg.Equal", eq)
	reg("bytes.Equal", eq)
	cmp := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, t := mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1]))
		if x.truth(x.strEq(s, t)) {
			return uint64(0)
		}
		if x.truth(x.strLess(s, t, true)) {
			return ^uint64(0)
		}
		return uint64(1)
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("bytes.Compare", cmp)
	reg("strings.Compare", cmp)
	reg("cmp.Compare[string]", cmp)
	index := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, sub := mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1]))
		if cs, ok := s.(string); ok {
			if ct, ok := sub.(string); ok {
				return uint64(int64(strings.Index(cs, ct)))
			}
		}
		n, m := strLen(s), strLen(sub)
		for i := 0; i+m <= n; i++ {
			if x.truth(x.strEq(strSlice(s, i, i+m), sub)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		reg(n, index)
	}
	reg("strings.IndexByte", idxByte)
	reg("internal/stringslite.IndexByte", idxByte)
	reg("bytes.IndexByte", idxByte)
	// fork-free prefix/suffix tests
	hasPre := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, p := mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1]))
		if strLen(s) < strLen(p) {
			return false
		}
		return x.strEq(strSlice(s, 0, strLen(p)), p)
	}
	hasSuf := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, p := mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1]))
		if strLen(s) < strLen(p) {
			return false
		}
		return x.strEq(strSlice(s, strLen(s)-strLen(p), strLen(s)), p)
	}
	reg("strings.HasPrefix", hasPre)
	reg("bytes.HasPrefix", hasPre)
	reg("internal/stringslite.HasPrefix", hasPre)
	reg("strings.HasSuffix", hasSuf)
	reg("bytes.HasSuffix", hasSuf)
	reg("internal/stringslite.HasSuffix", hasSuf)
	reg("internal/bytealg.MakeNoZero", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := make([]Value, x.concInt(a[0]))
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	reg("strings.Clone", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("(*strings.Builder).String", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := x.getField((*x.deref(a[0])).(Struct), x.w.eng.typeByName("strings", "Builder"), "buf").([]Value)
		return mkStr(b)
	})
	reg("(*strings.Builder).copyCheck", zeroI)

	// help texts
	reg("github.com/spf13/cobra.tmpl", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return Iface{} })

	// ---- strconv
	reg("strconv.Itoa", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.itoa(a[0], 64, true) })
	reg("strconv.FormatInt", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if c, ok := a[0].(uint64); ok {
			return strconv.FormatInt(int64(c), x.concInt(a[1]))
		}
		if x.concInt(a[1]) == 10 {
			return x.itoa(a[0], 64, true)
		}
		return x.callBody(fr, fn, a)
	})
	reg("strconv.FormatUint", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if c, ok := a[0].(uint64); ok {
			return strconv.FormatUint(c, x.concInt(a[1]))
		}
		if x.concInt(a[1]) == 10 {
			return x.itoa(a[0], 64, false)
		}
		return x.callBody(fr, fn, a)
	})
	reg("strconv.AppendInt", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if x.concInt(a[2]) == 10 {
			return append(a[0].([]Value), strBytes(x.itoa(a[1], 64, true))...)
		}
		return x.callBody(fr, fn, a)
	})
	parse := func(bits func(x *X, a []Value) (int, int)) Intrinsic {
		return func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(*SymStr); ok {
				if t, ok := x.itoaTab[symKey(s)]; ok {
					base, bw := bits(x, a)
					if base == 10 || base == 0 {
						if bw == 0 || bw == 64 {
							return Tuple{t, nilErr}
						}
						// in range of the narrower type: value unchanged
						p := x.w.pool
						tt := x.termW(t, 64)
						lim := uint64(1) << (bw - 1)
						in := p.And(p.Cmp(OpSle, p.Const(64, -lim), tt), p.Cmp(OpSle, tt, p.Const(64, lim-1)))
						if x.truth(fromTerm(in)) {
							return Tuple{t, nilErr}
						}
						f := x.w.eng.funcByName("strconv", "rangeError")
						e := x.call(fr, f, []Value{fn.Name(), s}, nil)
						bound := lim - 1
						if x.truth(fromTerm(p.Cmp(OpSlt, tt, p.Const(64, 0)))) {
							bound = -lim
						}
						return Tuple{bound, Iface{f.Signature.Results().At(0).Type(), e}}
					}
				}
			}
			return x.callBody(fr, fn, a)
		}
	}
	reg("strconv.Atoi", parse(func(x *X, a []Value) (int, int) { return 10, 64 }))
	reg("strconv.ParseInt", parse(func(x *X, a []Value) (int, int) { return x.concInt(a[1]), x.concInt(a[2]) }))

	// ---- sort
	sortSlice := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).V.([]Value)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && x.truth(x.callValue(fr, a[1], []Value{uint64(j), uint64(j - 1)})); j-- {
				x1, x2 := copyVal(s[j]), copyVal(s[j-1])
				storeTo(&s[j], x2)
				storeTo(&s[j-1], x1)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	reg("sort.SliceIsSorted", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).V.([]Value)
		for i := len(s) - 1; i > 0; i-- {
			if x.truth(x.callValue(fr, a[1], []Value{uint64(i), uint64(i - 1)})) {
				return false
			}
		}
		return true
	})

	// ---- errors
	reg("errors.Is", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.errorsIs(fr, a[0].(Iface), a[1].(Iface))
	})
	reg("errors.As", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		tgt := a[1].(Iface)
		pt, ok := tgt.T.Underlying().(*types.Pointer)
		if !ok {
			panic(targetPanic{x.newError("errors: target must be a non-nil pointer")})
		}
		return x.errorsAs(fr, a[0].(Iface), pt.Elem(), tgt.V)
	})

	// ---- unicode predicates on symbolic runes: one disjunction per table
	reg("unicode.Is", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if _, ok := a[1].(*Term); !ok {
			return x.callBody(fr, fn, a)
		}
		return x.inTable(a[0].(*Value), a[1].(*Term))
	})
	reg("unicode.In", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if _, ok := a[0].(*Term); !ok {
			return x.callBody(fr, fn, a)
		}
		var r Value = false
		for _, t := range a[1].([]Value) {
			r = x.orV(r, x.inTable(t.(*Value), a[0].(*Term)))
		}
		return r
	})
	regTime()
}

func (x *X) inTable(tab *Value, r *Term) Value {
	p := x.w.pool
	r = p.ZExt(r, 32)
	s := (*tab).(Struct)
	var ors []*Term
	add := func(lo, hi, stride uint64) {
		if stride == 1 || lo == hi {
			ors = append(ors, p.And(p.Cmp(OpUle, p.Const(32, lo), r), p.Cmp(OpUle, r, p.Const(32, hi))))
			return
		}
		if stride == 2 {
			ors = append(ors, p.And(p.Cmp(OpUle, p.Const(32, lo), r), p.Cmp(OpUle, r, p.Const(32, hi)), p.Eq(p.Extract(r, 0, 0), p.Const(1, lo&1))))
			return
		}
		for c := lo; c <= hi; c += stride {
			ors = append(ors, p.Eq(r, p.Const(32, c)))
		}
	}
	for k := 0; k < 2; k++ {
		for _, e := range s[k].([]Value) {
			rg := e.(Struct)
			add(rg[0].(uint64), rg[1].(uint64), rg[2].(uint64))
		}
	}
	return fromTerm(p.Or(ors...))
}

func (x *X) errorsIs(fr *Frame, err, target Iface) bool {
	for depth := 0; depth < 50; depth++ {
		if err.T == nil || target.T == nil {
			return err.T == nil && target.T == nil
		}
		if types.Comparable(target.T) && types.Identical(err.T, target.T) && x.truth(x.equal(target.T, err.V, target.V)) {
			return true
		}
		if x.hasMethod(err.T, "Is") {
			if x.truth(x.callMethod(fr, err, "Is", target)) {
				return true
			}
		}
		if !x.hasMethod(err.T, "Unwrap") {
			return false
		}
		u := x.callMethod(fr, err, "Unwrap")
		if list, ok := u.([]Value); ok {
			for _, e := range list {
				if x.errorsIs(fr, e.(Iface), target) {
					return true
				}
			}
			return false
		}
		err = u.(Iface)
	}
	return false
}

func (x *X) errorsAs(fr *Frame, err Iface, want types.Type, dst Value) bool {
	for depth := 0; depth < 50 && err.T != nil; depth++ {
		if it, ok := want.Underlying().(*types.Interface); ok {
			if x.w.eng.implements(err.T, it) {
				x.store(dst, err)
				return true
			}
		} else if types.Identical(err.T, want) {
			x.store(dst, err.V)
			return true
		}
		if !x.hasMethod(err.T, "Unwrap") {
			return false
		}
		u := x.callMethod(fr, err, "Unwrap")
		if list, ok := u.([]Value); ok {
			for _, e := range list {
				if x.errorsAs(fr, e.(Iface), want, dst) {
					return true
				}
			}
			return false
		}
		err = u.(Iface)
	}
	return false
}

func symKey(s *SymStr) string {
	var sb strings.Builder
	for _, b := range s.b {
		switch c := b.(type) {
		case uint64:
			fmt.Fprintf(&sb, "c%d,", c)
		case *Term:
			fmt.Fprintf(&sb, "t%d,", c.id)
		}
	}
	return sb.String()
}

// itoa renders an integer in decimal; symbolic values fork on sign and digit
// count and get one fresh variable per digit tied to the value.
func (x *X) itoa(v Value, w uint8, signed bool) Value {
	if c, ok := v.(uint64); ok {
		if signed {
			return strconv.FormatInt(sext(c, w), 10)
		}
		return strconv.FormatUint(c&mask(w), 10)
	}
	p := x.w.pool
	t := v.(*Term)
	orig := t
	if signed {
		t = p.SExt(t, 64)
	} else {
		t = p.ZExt(t, 64)
	}
	ck := fmt.Sprintf("%d/%v", t.id, signed)
	if r, ok := x.itoaCache[ck]; ok {
		return r
	}
	neg := false
	if signed && x.truth(fromTerm(p.Cmp(OpSlt, t, p.Const(64, 0)))) {
		neg = true
		t = p.Neg(t)
	}
	n := 1
	lim := uint64(10)
	for n < 20 {
		if x.truth(fromTerm(p.Cmp(OpUlt, t, p.Const(64, lim)))) {
			break
		}
		n++
		if n == 20 {
			break
		}
		lim *= 10
	}
	val := p.Eval(t, x.model)
	var bytes []Value
	sum := p.Const(64, 0)
	var cons []*Term
	for i := 0; i < n; i++ {
		d := x.fresh(8, "dig")
		q := val
		for k := 0; k < n-1-i; k++ {
			q /= 10
		}
		x.model[d.name] = q % 10
		cons = append(cons, p.Cmp(OpUle, d, p.Const(8, 9)))
		sum = p.BV(OpAdd, p.BV(OpMul, sum, p.Const(64, 10)), p.ZExt(d, 64))
		bytes = append(bytes, fromTerm(p.BV(OpAdd, d, p.Const(8, '0'))))
	}
	digits := append([]*Term{}, x.vars[len(x.vars)-n:]...)
	if n > 1 {
		cons = append(cons, p.Not(p.Eq(digits[0], p.Const(8, 0))))
	}
	cons = append(cons, p.Eq(sum, t))
	x.defs = append(x.defs, &lazyDef{digits: digits, of: t, cons: p.And(cons...)})
	if neg {
		bytes = append([]Value{uint64('-')}, bytes...)
	}
	r := mkStr(bytes)
	if x.itoaCache == nil {
		x.itoaCache = map[string]Value{}
		x.itoaTab = map[string]Value{}
	}
	x.itoaCache[ck] = r
	if s, ok := r.(*SymStr); ok {
		if signed {
			x.itoaTab[symKey(s)] = fromTerm(p.SExt(orig, 64))
		}
	}
	return r
}

func regTime() {
	now := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.mkTime(x.tick()) }
	reg("time.Now", now)
	reg("time.runtimeNano", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return uint64(x.tick()) })
	reg("time.now", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.tick()
		return Tuple{uint64(t / 1e9), uint64(t % 1e9), uint64(t)}
	})
	reg("time.initLocal", zeroI)
	reg("time.Sleep", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		woke := false
		x.addTimer(int64(x.concInt(a[0])), func() { woke = true })
		x.waitUntil(func() bool { return woke })
		return nil
	})
	mkTimer := func(x *X, tn string) (*Value, Struct) {
		t := x.w.eng.typeByName("time", tn)
		p := new(Value)
		s := zero(t).(Struct)
		*p = s
		return p, s
	}
	fire := func(x *X, c *Chan) func() {
		return func() {
			if len(c.buf) < c.cap {
				c.buf = append(c.buf, x.mkTime(x.now))
			}
		}
	}
	reg("time.NewTimer", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, s := mkTimer(x, "Timer")
		c := &Chan{cap: 1, et: x.w.eng.typeByName("time", "Time")}
		s[0] = c
		x.shadow[p] = x.addTimer(int64(x.concInt(a[0])), fire(x, c))
		return p
	})
	reg("time.After", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &Chan{cap: 1, et: x.w.eng.typeByName("time", "Time")}
		x.addTimer(int64(x.concInt(a[0])), fire(x, c))
		return c
	})
	reg("time.AfterFunc", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, _ := mkTimer(x, "Timer")
		f := a[1]
		x.shadow[p] = x.addTimer(int64(x.concInt(a[0])), func() { x.spawn(f, nil) })
		return p
	})
	reg("(*time.Timer).Stop", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.stopTimer(a[0])
	})
	reg("(*time.Timer).Reset", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		was := x.stopTimer(a[0])
		old := x.shadow[a[0]].(*vtimer)
		// Go 1.23+ drains stale values
		if c, ok := (*a[0].(*Value)).(Struct)[0].(*Chan); ok && c != nil {
			c.buf = nil
		}
		x.shadow[a[0]] = x.addTimer(int64(x.concInt(a[1])), old.fn)
		return was
	})
	ticker := func(x *X, d int64, c *Chan, key Value) {
		var again func()
		again = func() {
			fire(x, c)()
			x.ticks++
			if x.ticks > 200 {
				return
			}
			x.shadow[key] = x.addTimer(d, again)
		}
		x.shadow[key] = x.addTimer(d, again)
	}
	reg("time.NewTicker", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, s := mkTimer(x, "Ticker")
		c := &Chan{cap: 1, et: x.w.eng.typeByName("time", "Time")}
		s[0] = c
		ticker(x, int64(x.concInt(a[0])), c, p)
		return p
	})
	reg("time.Tick", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &Chan{cap: 1, et: x.w.eng.typeByName("time", "Time")}
		ticker(x, int64(x.concInt(a[0])), c, c)
		return c
	})
	reg("(*time.Ticker).Stop", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.stopTimer(a[0])
		return nil
	})
	reg("(*time.Ticker).Reset", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.stopTimer(a[0])
		c := (*a[0].(*Value)).(Struct)[0].(*Chan)
		ticker(x, int64(x.concInt(a[1])), c, a[0])
		return nil
	})
}

func (x *X) stopTimer(p Value) bool {
	t, _ := x.shadow[p].(*vtimer)
	if t == nil {
		return false
	}
	for i, o := range x.timers {
		if o == t {
			x.timers = append(x.timers[:i:i], x.timers[i+1:]...)
			return true
		}
	}
	return false
}

// originIntrinsic finds the stand-in for an instance of a generic function.
func originIntrinsic(fn *ssa.Function) Intrinsic {
	if fn == nil || fn.Origin() == nil || fn.Origin() == fn {
		return nil
	}
	return intrinsics[fn.Origin().String()]
}

func init() {
	reg("slices.overlaps", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, q := a[0].([]Value), a[1].([]Value)
		for i := range p {
			if len(q) > 0 && &p[i] == &q[0] {
				return true
			}
		}
		for i := range q {
			if len(p) > 0 && &q[i] == &p[0] {
				return true
			}
		}
		return false
	})
	reg("maps.clone", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := a[0].(Iface)
		m, _ := f.V.(*Map)
		if m == nil {
			return f
		}
		n := &Map{kt: m.kt, idx: map[string]*mapEntry{}}
		for _, e := range m.ents {
			if !e.dead {
				x.mapSet(n, e.k, e.v)
			}
		}
		return Iface{f.T, n}
	})
	reg("os.Readlink", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		_, _, n, e := x.walk(a[0], false)
		switch {
		case e == 0 && n == nil:
			e = eNOENT
		case e == 0 && n.link == nil:
			e = eINVAL
		}
		if e != 0 {
			return Tuple{"", x.pathErr("readlink", a[0], e)}
		}
		return Tuple{n.link, nilErr}
	})
}
