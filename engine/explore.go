package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	infos    sync.Map
	meths    sync.Map
	impls    sync.Map
	methMu   sync.Mutex
	maxSteps int64
	debug    bool
	tier     string
	deadline time.Time
	stop     atomic.Bool
	notes    sync.Map
	tcache   sync.Map
	solver   string
	qtimeout int
	overlay  map[string]string
	local    []*packages.Package
}

func (e *Engine) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	e.notes.LoadOrStore(s, true)
}

func (e *Engine) stopped() bool { return e.stop.Load() || time.Now().After(e.deadline) }

func (e *Engine) pkg(path string) *ssa.Package {
	p := e.pkgs[path]
	if p == nil {
		unsup("package %s not loaded", path)
	}
	return p
}

func (e *Engine) typeByName(pkg, name string) types.Type {
	k := pkg + "\x00" + name
	if v, ok := e.tcache.Load(k); ok {
		return v.(types.Type)
	}
	o := e.pkg(pkg).Pkg.Scope().Lookup(name)
	if o == nil {
		unsup("no type %s.%s", pkg, name)
	}
	e.tcache.Store(k, o.Type())
	return o.Type()
}

func (e *Engine) ptrTo(t types.Type) types.Type {
	if v, ok := e.tcache.Load(t); ok {
		return v.(types.Type)
	}
	v, _ := e.tcache.LoadOrStore(t, types.NewPointer(t))
	return v.(types.Type)
}

func (e *Engine) funcByName(pkg, name string) *ssa.Function {
	f := e.pkg(pkg).Func(name)
	if f == nil {
		unsup("no func %s.%s", pkg, name)
	}
	return f
}

type Worker struct {
	digMemo      map[*Term][]*Term
	unaryMemo    map[*Term]*Term
	domMemo      map[*Term]*dom
	id           int
	eng          *Engine
	pool         *Pool
	solver       *Solver
	shared       map[*ssa.Global]*Value
	sharedInit   map[*ssa.Package]bool
	consts       map[*ssa.Const]Value
	closures     map[*ssa.Function]*Closure
	sharedShadow map[any]any
}

func NewWorker(e *Engine, id int) *Worker {
	w := &Worker{id: id, eng: e, pool: NewPool(), shared: map[*ssa.Global]*Value{}, sharedInit: map[*ssa.Package]bool{}, consts: map[*ssa.Const]Value{}, closures: map[*ssa.Function]*Closure{}, sharedShadow: map[any]any{}}
	s, err := NewSolver(w.pool, e.solver, e.qtimeout)
	if err != nil {
		fmt.Fprintln(os.Stderr, "solver:", err)
		os.Exit(3)
	}
	w.solver = s
	return w
}

// item is a pending path: decisions to replay and a model of its condition.
type item struct {
	prefix []uint64
	model  Model
}

// Input is a harness-visible symbolic input of a path.
type Input struct {
	Name string
	Kind string
	W    uint8
	T    *Term
}

type Candidate struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, deadlock
	Detail  string
	Inputs  []InputVal
	Dec     []uint64
	Sched   []int
	Points  []string
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    uint64 `json:"v"`
}

// X is the state of one path execution.
type X struct {
	markup  bool // documents are written as text, not as tokens
	xmlErr  error
	w       *Worker
	ex      *Explorer
	prefix  []uint64
	dec     []uint64
	pc      []*Term
	pcset   map[*Term]bool
	doms    map[*Term]dom
	related map[*Term]bool
	vars    []*Term
	inputs  []Input
	model   Model
	nvar    int
	steps   int64
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	static       bool
	tolerant     int
	inSharedInit int
	mapOrder     bool

	// threads
	threads   []*Thread
	cur       *Thread
	abort     any
	killing   bool
	now       int64 // virtual nanoseconds
	timers    []*vtimer
	preempt   int // remaining preemptions
	sched     []int
	points    []string
	nthread   int
	nvarTimer int
	ntemp     int
	inOp      int
	slow      int64
	ticks     int
	itoaTab   map[string]Value
	itoaCache map[string]Value
	defs      []*lazyDef
	schedOn   bool

	// environment
	fs     *FS
	kv     map[*inode]*KV
	reg    registry
	shadow map[any]any
	rel    map[any]vclock
	cells  map[*Value]*mapRace
	env    map[string]string
	crash  *crashState
	probe  Value // what a During region runs
	pid    int
	cmds   []string
	mutLog []string

	obs     []obsEntry
	asserts int
	reached map[string]bool
	funcs   map[string]bool
	stubs   map[string]int
	nBranch int64
	capped  bool
}

type obsEntry struct {
	name string
	v    Value
	typ  types.Type
}

type Explorer struct {
	eng     *Engine
	harness *ssa.Function
	name    string

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []item
	active  int
	maxPath int

	Paths        int64
	Infeasible   int64
	Unsupported  map[string]int
	Limits       map[string]int
	Steps        int64
	Branches     int64
	AssertsConc  int64
	AssertsSMT   int64
	AssertsUnk   int64
	Cands        []*Candidate
	candKey      map[string]int
	Reached      map[string]int
	AssertMsgs   map[string]int64
	Funcs        map[string]bool
	Stubs        map[string]int
	Samples      []PathSample
	sampleEvery  int
	Incomplete   bool
	Queries      int
	SolverTime   time.Duration
	QSat, QUnsat int
	QUnk         int
	Wall         time.Duration
	UnkBranch    int64
	MutOps       map[string]int
}

type PathSample struct {
	Inputs []InputVal `json:"inputs"`
	Obs    []string   `json:"obs"`
	Steps  int64      `json:"steps"`
	Sched  []int      `json:"sched,omitempty"`
	Points []string   `json:"points,omitempty"`
}

func NewExplorer(e *Engine, fn *ssa.Function) *Explorer {
	ex := &Explorer{eng: e, harness: fn, name: fn.Name(), Unsupported: map[string]int{}, Limits: map[string]int{}, candKey: map[string]int{}, Reached: map[string]int{}, AssertMsgs: map[string]int64{}, Funcs: map[string]bool{}, Stubs: map[string]int{}, MutOps: map[string]int{}, sampleEvery: 1}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) push(it item) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) Run(workers []*Worker) {
	t0 := time.Now()
	ex.queue = []item{{}}
	var q0, s0, u0, k0 int
	var tm0 time.Duration
	for _, w := range workers {
		q0 += w.solver.Queries
		s0 += w.solver.NSat
		u0 += w.solver.NUnsat
		k0 += w.solver.NUnk
		tm0 += w.solver.Time
	}
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				ex.mu.Lock()
				for len(ex.queue) == 0 && ex.active > 0 {
					ex.cond.Wait()
				}
				if len(ex.queue) == 0 {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				if ex.eng.stopped() || (ex.maxPath > 0 && ex.Paths >= int64(ex.maxPath)) {
					ex.Incomplete = true
					ex.queue = nil
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				it := ex.queue[len(ex.queue)-1]
				ex.queue = ex.queue[:len(ex.queue)-1]
				ex.active++
				ex.mu.Unlock()
				ex.runPath(w, it)
				ex.mu.Lock()
				ex.active--
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
	for _, w := range workers {
		ex.Queries += w.solver.Queries
		ex.QSat += w.solver.NSat
		ex.QUnsat += w.solver.NUnsat
		ex.QUnk += w.solver.NUnk
		ex.SolverTime += w.solver.Time
	}
	ex.Queries -= q0
	ex.QSat -= s0
	ex.QUnsat -= u0
	ex.QUnk -= k0
	ex.SolverTime -= tm0
	ex.Wall = time.Since(t0)
}

func (ex *Explorer) runPath(w *Worker, it item) {
	x := &X{w: w, ex: ex, prefix: it.prefix, model: it.model, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, shadow: map[any]any{}, env: map[string]string{"PATH": "/usr/bin:/bin", "HOME": "/root"}, reached: map[string]bool{}, funcs: map[string]bool{}, stubs: map[string]int{}, pid: 4242}
	if x.model == nil {
		x.model = Model{}
	}
	x.fs = newFS()
	x.kv = map[*inode]*KV{}
	x.now = 1700000000 * 1e9
	main := &Thread{x: x, resume: make(chan struct{}), main: true}
	x.threads = []*Thread{main}
	x.cur = main
	end := x.runMain()
	x.killThreads()

	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.Steps += x.steps
	ex.Branches += x.nBranch
	for f := range x.funcs {
		ex.Funcs[f] = true
	}
	for f, n := range x.stubs {
		ex.Stubs[f] += n
	}
	for _, m := range x.mutLog {
		ex.MutOps[m]++
	}
	for k := range x.reached {
		ex.Reached[k]++
	}
	switch end.kind {
	case "done", "exit":
		ex.Paths++
		n := int(ex.Paths)
		// keep a spread of samples: reservoir by doubling stride
		if n%ex.sampleEvery == 0 && !x.capped {
			ex.Samples = append(ex.Samples, x.sample())
			if len(ex.Samples) > 64 {
				var half []PathSample
				for i := 0; i < len(ex.Samples); i += 2 {
					half = append(half, ex.Samples[i])
				}
				ex.Samples = half
				ex.sampleEvery *= 2
			}
		}
	case "infeasible":
		ex.Infeasible++
	case "unsupported":
		ex.Unsupported[firstLine(end.why)]++
		ex.eng.note("unsupported in %s: %s", ex.name, end.why)
	case "kill":
		ex.Incomplete = true
	case "reported":
		ex.Paths++
	default:
		ex.Limits[end.kind+": "+firstLine(end.why)]++
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		j := strings.IndexByte(s[i+1:], '\n')
		if j < 0 {
			return s
		}
		return s[:i] + " " + strings.TrimSpace(s[i+1:i+1+j])
	}
	return s
}

func (x *X) sample() PathSample {
	s := PathSample{Steps: x.steps, Inputs: x.inputVals(x.model), Sched: append([]int{}, x.sched...), Points: append([]string{}, x.points...)}
	for _, o := range x.obs {
		s.Obs = append(s.Obs, o.name+"="+x.obsString(o.v, o.typ))
	}
	return s
}

func (x *X) inputVals(m Model) []InputVal {
	var out []InputVal
	for _, in := range x.inputs {
		out = append(out, InputVal{in.Name, in.Kind, x.w.pool.Eval(in.T, m)})
	}
	return out
}

func (x *X) runMain() (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				end = r
			case targetPanic:
				end = x.reportPanic(r)
			case unsupported:
				end = pathEnd{"unsupported", r.why}
			case crashUnwind:
				end = pathEnd{"unsupported", "crash outside RunWithCrash"}
			default:
				if x.w.eng.debug {
					panic(r)
				}
				end = pathEnd{"unsupported", fmt.Sprintf("engine: %v", r)}
			}
		}
		if end.kind == "deadlock" {
			x.report("deadlock", "deadlock", end.why, x.model)
			end = pathEnd{"reported", "deadlock"}
		}
	}()
	x.call(nil, x.ex.harness, nil, nil)
	return pathEnd{"done", ""}
}

func (x *X) reportPanic(r targetPanic) pathEnd {
	msg := x.panicText(r)
	x.report("panic", "panic: "+msg, "", x.model)
	return pathEnd{"reported", "panic " + msg}
}

func (x *X) panicText(r targetPanic) string {
	defer func() { recover() }()
	txt := show(r.v)
	if r.v.T != nil && x.hasMethod(r.v.T, "Error") {
		s := x.callMethod(nil, r.v, "Error")
		txt = x.concStr(s)
	} else if s, ok := r.v.V.(string); ok {
		txt = s
	}
	return txt
}

func (x *X) report(kind, msg, detail string, m Model) {
	ex := x.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	k := kind + msg
	ex.candKey[k]++
	if ex.candKey[k] > 6 {
		return
	}
	c := &Candidate{Harness: ex.name, Msg: msg, Kind: kind, Detail: detail, Inputs: x.inputVals(m), Dec: append([]uint64{}, x.dec...), Sched: append([]int{}, x.sched...), Points: append([]string{}, x.points...)}
	ex.Cands = append(ex.Cands, c)
}

// ---- symbolic primitives

func (x *X) fresh(w uint8, label string) *Term {
	name := fmt.Sprintf("v%d_%s", x.nvar, label)
	x.nvar++
	t := x.w.pool.Var(w, fmt.Sprintf("%s:%d", name, w))
	x.vars = append(x.vars, t)
	return t
}

func (x *X) addPC(t *Term) {
	if t == x.w.pool.T {
		return
	}
	x.activate(t)
	x.pc = append(x.pc, t)
	x.learn(t)
	if x.pcset == nil {
		x.pcset = map[*Term]bool{}
	}
	x.pcset[t] = true
	if t.op == OpAnd {
		for _, a := range t.a {
			x.pcset[a] = true
		}
	}
}

func (x *X) holds(t *Term) bool { return x.w.pool.Eval(t, x.model) == 1 }

// truth decides a branch condition, forking when both sides are feasible.
func (x *X) truth(v Value) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *Term:
		if b.isConst() {
			return b.val == 1
		}
		return x.branch(b)
	}
	unsup("truth of %T", v)
	return false
}

func (x *X) branch(c *Term) bool {
	x.nBranch++
	p := x.w.pool
	if x.pcset[c] {
		return true
	}
	if x.pcset[p.Not(c)] {
		return false
	}
	v := x.local(c)
	var yes, no dom
	if v != nil {
		d := x.domOf(v)
		yes, no = d.and(x.w.sat(c, v)), d.minus(x.w.sat(c, v))
		if no.empty() {
			return true
		}
		if yes.empty() {
			return false
		}
	}
	if len(x.dec) < len(x.prefix) {
		d := x.prefix[len(x.dec)]
		x.dec = append(x.dec, d)
		if d == 1 {
			x.addPC(c)
			return true
		}
		x.addPC(p.Not(c))
		return false
	}
	cur := x.holds(c)
	if v != nil && !x.related[v] {
		o := no
		if !cur {
			o = yes
		}
		x.ex.push(item{append(append([]uint64{}, x.dec...), b2u(!cur)), x.with(v, o.first())})
		x.dec = append(x.dec, b2u(cur))
		if cur {
			x.addPC(c)
		} else {
			x.addPC(p.Not(c))
		}
		return cur
	}
	other := c
	if cur {
		other = p.Not(c)
	}
	res, m := x.check(other)
	if res == Unknown {
		atomic.AddInt64(&x.ex.UnkBranch, 1)
		x.ex.eng.note("solver unknown on a branch (side not explored): %s", x.ex.name)
	}
	if res == Sat {
		alt := append(append([]uint64{}, x.dec...), b2u(!cur))
		x.ex.push(item{alt, m})
	}
	x.dec = append(x.dec, b2u(cur))
	if cur {
		x.addPC(c)
	} else {
		x.addPC(p.Not(c))
	}
	return cur
}

// choose picks one of n alternatives, all feasible (a fresh bounded variable).
func (x *X) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	v := x.fresh(16, label)
	return x.pick(v, n)
}

func (x *X) pick(v *Term, n int) int {
	p := x.w.pool
	if len(x.dec) < len(x.prefix) {
		d := x.prefix[len(x.dec)]
		x.dec = append(x.dec, d)
		x.addPC(p.Eq(v, p.Const(v.w, d)))
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		m := Model{}
		for k, val := range x.model {
			m[k] = val
		}
		m[v.name] = uint64(i)
		x.ex.push(item{append(append([]uint64{}, x.dec...), uint64(i)), m})
	}
	x.dec = append(x.dec, 0)
	x.model[v.name] = 0
	x.addPC(p.Eq(v, p.Const(v.w, 0)))
	return 0
}

const maxConc = 300

// concretize forks over every feasible value of t.
func (x *X) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	p := x.w.pool
	if len(x.dec) < len(x.prefix) {
		d := x.prefix[len(x.dec)]
		x.dec = append(x.dec, d)
		x.addPC(p.Eq(t, p.Const(t.w, d)))
		return d
	}
	first := p.Eval(t, x.model)
	if v := x.local(t); v != nil && !x.related[v] {
		d := x.domOf(v)
		seen := map[uint64]bool{first: true}
		m := Model{}
		for i := uint64(0); i <= mask(v.w); i++ {
			if !d.has(i) {
				continue
			}
			m[v.name] = i
			if val := p.Eval(t, m); !seen[val] {
				seen[val] = true
				x.ex.push(item{append(append([]uint64{}, x.dec...), val), x.with(v, i)})
			}
		}
		x.dec = append(x.dec, first)
		x.addPC(p.Eq(t, p.Const(t.w, first)))
		return first
	}
	excl := []*Term{p.Not(p.Eq(t, p.Const(t.w, first)))}
	for n := 0; ; n++ {
		if n >= maxConc {
			x.ex.eng.note("concretisation of a value cut at %d values in %s", maxConc, x.ex.name)
			x.ex.mu.Lock()
			x.ex.Limits["concretisation cut"]++
			x.ex.mu.Unlock()
			break
		}
		res, m := x.check(p.And(excl...))
		if res != Sat {
			if res == Unknown {
				atomic.AddInt64(&x.ex.UnkBranch, 1)
			}
			break
		}
		v := p.Eval(t, m)
		x.ex.push(item{append(append([]uint64{}, x.dec...), v), m})
		excl = append(excl, p.Not(p.Eq(t, p.Const(t.w, v))))
	}
	x.dec = append(x.dec, first)
	x.addPC(p.Eq(t, p.Const(t.w, first)))
	return first
}

func (x *X) assume(v Value) {
	switch b := v.(type) {
	case bool:
		if !b {
			panic(pathEnd{"infeasible", "assume"})
		}
		return
	case *Term:
		if b.isConst() {
			x.assume(b.val == 1)
			return
		}
		if len(x.dec) < len(x.prefix) || x.holds(b) {
			x.addPC(b)
			// inside a replayed prefix the recorded model covers all of it
			return
		}
		res, m := x.check(b)
		if res != Sat {
			if res == Unknown {
				atomic.AddInt64(&x.ex.UnkBranch, 1)
			}
			panic(pathEnd{"infeasible", "assume"})
		}
		x.model = m
		x.addPC(b)
	}
}

func (x *X) assert(v Value, msg string) {
	ex := x.ex
	switch b := v.(type) {
	case bool:
		if len(x.dec) >= len(x.prefix) {
			atomic.AddInt64(&ex.AssertsConc, 1)
			x.countAssert(msg)
		}
		if !b {
			x.report("assert", msg, "", x.model)
			panic(pathEnd{"reported", msg})
		}
		return
	case *Term:
		if b.isConst() {
			x.assert(b.val == 1, msg)
			return
		}
		if len(x.dec) < len(x.prefix) {
			x.addPC(b)
			return
		}
		x.countAssert(msg)
		if !x.holds(b) {
			atomic.AddInt64(&ex.AssertsSMT, 1)
			x.report("assert", msg, "", x.model)
			// continue on the passing side when there is one
			res, m := x.check(b)
			if res != Sat {
				panic(pathEnd{"reported", msg})
			}
			x.model = m
			x.addPC(b)
			return
		}
		res, m := x.check(x.w.pool.Not(b))
		switch res {
		case Unsat:
			atomic.AddInt64(&ex.AssertsSMT, 1)
		case Unknown:
			atomic.AddInt64(&ex.AssertsUnk, 1)
		case Sat:
			atomic.AddInt64(&ex.AssertsSMT, 1)
			x.report("assert", msg, "", m)
		}
		x.addPC(b)
		return
	}
	unsup("assert of %T", v)
}

func (x *X) countAssert(msg string) {
	x.ex.mu.Lock()
	x.ex.AssertMsgs[msg]++
	x.ex.mu.Unlock()
}

// concStr renders a string with the current model (diagnostics only).
func (x *X) concStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		var sb strings.Builder
		for _, b := range s.b {
			sb.WriteByte(byte(x.w.pool.Eval(x.termW(b, 8), x.model)))
		}
		return sb.String()
	}
	return show(v)
}

func (x *X) obsString(v Value, t types.Type) string {
	switch s := v.(type) {
	case string:
		return fmt.Sprintf("%q", s)
	case *SymStr:
		return fmt.Sprintf("%q", x.concStr(s))
	case bool:
		return fmt.Sprint(s)
	case uint64:
		if t != nil && isSigned(t) {
			return fmt.Sprint(sext(s, widthOf(t)))
		}
		return fmt.Sprint(s)
	case *Term:
		e := x.w.pool.Eval(s, x.model)
		if s.w == 0 {
			return fmt.Sprint(e == 1)
		}
		if t != nil && isSigned(t) {
			return fmt.Sprint(sext(e, s.w))
		}
		return fmt.Sprint(e)
	case []Value:
		var et types.Type
		if t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		var p []string
		for _, e := range s {
			p = append(p, x.obsString(e, et))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Iface:
		if s.T == nil {
			return "nil"
		}
		return x.obsString(s.V, s.T)
	}
	return fmt.Sprintf("<%T>", v)
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
