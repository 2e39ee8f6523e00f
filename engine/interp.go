package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// ---- control transfer panics of the interpreter itself

type targetPanic struct{ v Iface } // a panic of the program under test

type pathEnd struct {
	kind string // infeasible, unsupported, limit, exit, kill, deadlock, done
	why  string
}

type crashUnwind struct{ id int }

// ---- functions

type fnInfo struct {
	fn      *ssa.Function
	slots   map[ssa.Value]int
	n       int
	intr    Intrinsic
	ferryd  bool
	harness bool
	name    string
	once    sync.Once
}

type Intrinsic func(x *X, fr *Frame, fn *ssa.Function, args []Value) Value

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if v, ok := e.infos.Load(fn); ok {
		fi := v.(*fnInfo)
		fi.once.Do(func() { e.fillInfo(fi) })
		return fi
	}
	v, _ := e.infos.LoadOrStore(fn, &fnInfo{fn: fn})
	fi := v.(*fnInfo)
	fi.once.Do(func() { e.fillInfo(fi) })
	return fi
}

const modPath = "github.com/getsolus/ferryd/"

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
		if og := f.Origin(); og != nil && og != f && og.Pkg != nil {
			return og.Pkg.Pkg.Path()
		}
	}
	return ""
}

func (e *Engine) fillInfo(fi *fnInfo) {
	fn := fi.fn
	fi.name = fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		fi.name = o.String()
	}
	pp := fnPkgPath(fn)
	fi.harness = strings.HasPrefix(pp, modPath+"src/vharness") || strings.Contains(e.prog.Fset.Position(fn.Pos()).Filename, "zz_verif")
	fi.ferryd = strings.HasPrefix(pp, modPath) && !fi.harness
	fi.intr = e.findIntrinsic(fi.name, pp, fn)
	fi.slots = map[ssa.Value]int{}
	add := func(v ssa.Value) {
		fi.slots[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	next *deferred
}

type Frame struct {
	x         *X
	caller    *Frame
	fi        *fnInfo
	fn        *ssa.Function
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	pan       any
	cur       ssa.Instruction
	depth     int
}

func (fr *Frame) where() string {
	if fr == nil || fr.cur == nil {
		return "?"
	}
	p := fr.x.w.eng.prog.Fset.Position(fr.cur.Pos())
	return fmt.Sprintf("%s (%s:%d)", fr.fn, p.Filename, p.Line)
}

func (fr *Frame) backtrace() string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 25; f = f.caller {
		sb.WriteString("\n    " + f.where())
		n++
	}
	return sb.String()
}

func (fr *Frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.x.w.constVal(v)
	case *ssa.Global:
		return fr.x.globalAddr(v)
	case *ssa.Function:
		return fr.x.w.closureOf(v)
	case *ssa.Builtin:
		return v
	}
	return fr.env[fr.fi.slots[v]]
}

func (fr *Frame) set(v ssa.Value, val Value) { fr.env[fr.fi.slots[v]] = val }

func (w *Worker) closureOf(fn *ssa.Function) *Closure {
	if c, ok := w.closures[fn]; ok {
		return c
	}
	c := &Closure{Fn: fn}
	w.closures[fn] = c
	return c
}

func (w *Worker) constVal(c *ssa.Const) Value {
	if v, ok := w.consts[c]; ok {
		return v
	}
	v := constValue(c)
	switch v.(type) {
	case Struct, Array, Tuple:
		return v
	}
	w.consts[c] = v
	return v
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if _, ok := t.(*types.TypeParam); ok {
		unsup("const of type param")
	}
	b, ok := t.(*types.Basic)
	if !ok {
		unsup("const %s", c)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0 || b.Kind() == types.UnsafePointer:
		if b.Info()&types.IsUnsigned != 0 {
			return c.Uint64() & mask(widthOf(t))
		}
		return uint64(c.Int64()) & mask(widthOf(t))
	case b.Info()&types.IsFloat != 0:
		return c.Float64()
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	}
	unsup("const %s", c)
	return nil
}

// ---- globals and lazy package initialisation

func (x *X) globalAddr(g *ssa.Global) *Value {
	pkg := g.Pkg
	local := x.isLocalPkg(pkg)
	m := x.w.shared
	if local || stdStream(g) {
		m = x.globals
	}
	if strings.HasPrefix(g.Name(), "init$guard") {
		if p, ok := m[g]; ok {
			return p
		}
		p := new(Value)
		*p = false
		m[g] = p
		return p
	}
	x.ensureInit(pkg)
	if p, ok := m[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	m[g] = p
	if ov, ok := globalOverrides[pkg.Pkg.Path()+"."+g.Name()]; ok {
		*p = ov(x)
	}
	return p
}

func (x *X) isLocalPkg(p *ssa.Package) bool { return strings.HasPrefix(p.Pkg.Path(), modPath) }

// stdStream tells the standard streams, which a harness may replace.
func stdStream(g *ssa.Global) bool {
	return g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr")
}

var globalOverrides = map[string]func(x *X) Value{}

func (x *X) ensureInit(pkg *ssa.Package) {
	local := x.isLocalPkg(pkg)
	if local {
		if x.inited[pkg] {
			return
		}
		x.inited[pkg] = true
	} else {
		if x.w.sharedInit[pkg] {
			return
		}
		x.w.sharedInit[pkg] = true
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	if noInit(pkg.Pkg.Path()) {
		return
	}
	save := x.cur.fr
	if !local {
		x.tolerant++
		x.inSharedInit++
	}
	defer func() {
		if !local {
			x.tolerant--
			x.inSharedInit--
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok && pe.kind == "kill" {
					panic(r)
				}
				x.w.eng.note("stdlib init of %s stopped early: %v", pkg.Pkg.Path(), showPanic(r))
				x.cur.fr = save
			}
		}
	}()
	x.call(nil, init, nil, nil)
	x.cur.fr = save
}

func noInit(p string) bool {
	switch p {
	case "runtime", "os", "net", "crypto/tls", "net/http", "internal/poll", "internal/godebug", "internal/cpu", "vendor/golang.org/x/net/http2/hpack":
		return p == "runtime" || p == "internal/cpu"
	}
	return strings.HasPrefix(p, "internal/runtime") || strings.HasPrefix(p, "crypto/internal")
}

func showPanic(r any) string {
	switch r := r.(type) {
	case targetPanic:
		return "panic " + show(r.v)
	case pathEnd:
		return r.kind + ": " + r.why
	case unsupported:
		return "unsupported " + r.why
	}
	return fmt.Sprint(r)
}

// ---- calls

func (x *X) callValue(fr *Frame, f Value, args []Value) Value {
	switch f := f.(type) {
	case *Closure:
		if f == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if f.Nat != nil {
			return f.Nat(x, fr, args)
		}
		return x.call(fr, f.Fn, args, f.Env)
	case *ssa.Builtin:
		unsup("builtin value call")
	}
	unsup("call of %T", f)
	return nil
}

const maxDepth = 2500

func (x *X) call(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := x.w.eng.info(fn)
	if (fi.ferryd || fi.harness) && fn.Pkg != nil && fn.Synthetic != "package initializer" && !x.inited[fn.Pkg] {
		x.ensureInit(fn.Pkg)
	}
	if fi.ferryd && x.inSharedInit == 0 {
		x.funcs[fi.name] = true
	}
	if fi.intr != nil {
		if fi.intrName() != "" {
			x.stubs[fi.name]++
		}
		return fi.intr(x, caller, fn, args)
	}
	if fn.Blocks == nil {
		if x.tolerant > 0 {
			return zero(fn.Signature.Results())
		}
		unsup("no body: %s%s", fi.name, caller.backtrace())
	}
	fr := &Frame{x: x, caller: caller, fi: fi, fn: fn}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			panic(pathEnd{"limit", "call depth exceeded at " + fi.name})
		}
	}
	fr.env = make([]Value, fi.n)
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], env)
	fr.block = fn.Blocks[0]
	x.cur.fr = fr
	for fr.block != nil {
		x.runFrame(fr)
	}
	x.cur.fr = caller
	return fr.result
}

func (fi *fnInfo) intrName() string { return fi.name }

func (x *X) runFrame(fr *Frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		switch r := r.(type) {
		case pathEnd, crashUnwind:
			panic(r)
		case unsupported:
			panic(pathEnd{"unsupported", r.why + " at" + fr.backtrace()})
		case targetPanic:
			fr.panicking = true
			fr.pan = r
			x.cur.fr = fr
			fr.runDefers()
			fr.block = fr.fn.Recover
			if fr.block == nil {
				fr.result = zero(fr.fn.Signature.Results())
			}
		default:
			if x.w.eng.debug {
				panic(r)
			}
			panic(pathEnd{"unsupported", fmt.Sprintf("engine: %v at%s", r, fr.backtrace())})
		}
	}()
	for {
		instrs := fr.block.Instrs
		jumped := false
		for _, in := range instrs {
			fr.cur = in
			x.steps++
			if x.steps > x.w.eng.maxSteps {
				panic(pathEnd{"limit", "instruction bound exceeded at" + fr.backtrace()})
			}
			if x.steps&0xfff == 0 && x.w.eng.stopped() {
				panic(pathEnd{"kill", "time budget"})
			}
			switch in := in.(type) {
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					fr.result = fr.get(in.Results[0])
				default:
					res := make(Tuple, len(in.Results))
					for i, r := range in.Results {
						res[i] = fr.get(r)
					}
					fr.result = res
				}
				fr.block = nil
				return
			case *ssa.Jump:
				fr.prev, fr.block = fr.block, fr.block.Succs[0]
				jumped = true
			case *ssa.If:
				s := 1
				if x.truth(fr.get(in.Cond)) {
					s = 0
				}
				fr.prev, fr.block = fr.block, fr.block.Succs[s]
				jumped = true
			case *ssa.Phi:
				// evaluate all phis of the block simultaneously
				if in != instrs[0] {
					continue
				}
				var vals []Value
				idx := -1
				for i, p := range fr.block.Preds {
					if p == fr.prev {
						idx = i
						break
					}
				}
				for _, q := range instrs {
					ph, ok := q.(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, fr.get(ph.Edges[idx]))
				}
				for i, v := range vals {
					fr.set(instrs[i].(*ssa.Phi), v)
				}
			default:
				x.instr(fr, in)
			}
			if jumped {
				break
			}
		}
	}
}

func (fr *Frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		func() {
			ok := false
			defer func() {
				if !ok {
					r := recover()
					if tp, is := r.(targetPanic); is {
						fr.panicking = true
						fr.pan = tp
						return
					}
					panic(r)
				}
			}()
			fr.x.invokeDeferred(fr, d)
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.pan)
	}
}

func (x *X) invokeDeferred(fr *Frame, d *deferred) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		x.builtin(fr, b, d.call, d.args)
		return
	}
	x.static = d.call.StaticCallee() != nil
	x.callValue(fr, d.fn, d.args)
}

func (x *X) rtPanic(format string, a ...any) {
	msg := "runtime error: " + fmt.Sprintf(format, a...)
	panic(targetPanic{x.newError(msg)})
}

// newError builds an errors.errorString
func (x *X) newError(msg Value) Iface {
	t := x.w.eng.typeByName("errors", "errorString")
	p := new(Value)
	*p = Struct{msg}
	return Iface{T: types.NewPointer(t), V: p}
}

func (x *X) deref(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		unsup("deref of %T", v)
	}
	if p == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (x *X) load(v Value) Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case *SymPtr:
		// ite chain over runs of equal scalars
		k := len(p.arr) - 1
		res := p.arr[k]
		pl := x.w.pool
		for i := k - 1; i >= 0; i-- {
			if p.arr[i] == p.arr[i+1] {
				continue
			}
			res = x.iteVal(pl.Cmp(OpUle, p.idx, pl.Const(p.idx.w, uint64(i))), p.arr[i], res)
		}
		return res
	}
	unsup("load of %T", v)
	return nil
}

func (x *X) store(addr, v Value) {
	switch p := addr.(type) {
	case *Value:
		if p == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		storeTo(p, v)
		return
	case *SymPtr:
		for i := range p.arr {
			p.arr[i] = x.iteVal(x.w.pool.Eq(p.idx, x.w.pool.Const(p.idx.w, uint64(i))), v, p.arr[i])
		}
		return
	}
	unsup("store to %T", addr)
}

func (x *X) iteVal(c *Term, a, b Value) Value {
	if a == b {
		return a
	}
	w := uint8(0)
	switch t := a.(type) {
	case *Term:
		w = t.w
	default:
		if t, ok := b.(*Term); ok {
			w = t.w
		} else if _, ok := a.(uint64); ok {
			w = 64
		} else if _, ok := a.(bool); ok {
			w = 0
		} else {
			unsup("ite over %T", a)
		}
		// both concrete ints of unknown width: use 64, narrowed by users through norm
	}
	return fromTerm(x.w.pool.Ite(c, x.termW(a, w), x.termW(b, w)))
}

func fromTerm(t *Term) Value {
	if t.isConst() {
		if t.w == 0 {
			return t.val == 1
		}
		return t.val
	}
	return t
}

func (x *X) termW(v Value, w uint8) *Term {
	switch v := v.(type) {
	case *Term:
		if v.w == w {
			return v
		}
		if v.w > w {
			return x.w.pool.Extract(v, w-1, 0)
		}
		return x.w.pool.ZExt(v, w)
	case uint64:
		return x.w.pool.Const(w, v)
	case bool:
		return x.w.pool.Bool(v)
	}
	unsup("termW of %T", v)
	return nil
}

func isScalar(v Value) bool {
	switch v.(type) {
	case uint64, *Term, bool:
		return true
	}
	return false
}

func (x *X) instr(fr *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, x.unop(fr, in))
	case *ssa.BinOp:
		fr.set(in, x.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y)))
	case *ssa.Call:
		fr.set(in, x.doCall(fr, &in.Call))
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, x.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, x.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).([]Value)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			x.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)
		}
		p := new(Value)
		*p = Array(s[:n:n])
		fr.set(in, p)
	case *ssa.MakeInterface:
		fr.set(in, Iface{T: in.X.Type(), V: fr.get(in.X)})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, x.slice(fr, in))
	case *ssa.Panic:
		v := fr.get(in.X).(Iface)
		panic(targetPanic{v})
	case *ssa.Send:
		x.chanSend(fr.get(in.Chan).(*Chan), fr.get(in.X))
	case *ssa.Store:
		if x.schedOn {
			x.raceCell(fr, in.Addr, fr.get(in.Addr), true)
		}
		x.store(fr.get(in.Addr), fr.get(in.Val))
	case *ssa.Defer:
		d := &deferred{call: &in.Call, next: fr.defers}
		d.fn, d.args = x.prepareCall(fr, &in.Call)
		fr.defers = d
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Go:
		f, args := x.prepareCall(fr, &in.Call)
		x.spawn(f, args)
	case *ssa.MakeChan:
		n := x.concInt(fr.get(in.Size))
		fr.set(in, &Chan{cap: n, et: in.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(in.Type().(*types.Pointer).Elem())
		fr.set(in, p)
	case *ssa.MakeSlice:
		l := x.concInt(fr.get(in.Len))
		c := x.concInt(fr.get(in.Cap))
		if l < 0 || l > 1<<28 {
			x.rtPanic("makeslice: len out of range")
		}
		if c < l || c > 1<<28 {
			x.rtPanic("makeslice: cap out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, c)
		if c > 0 {
			z := zero(et)
			switch z.(type) {
			case Struct, Array:
				for i := range s {
					s[i] = zero(et)
				}
			default:
				for i := range s {
					s[i] = z
				}
			}
		}
		fr.set(in, s[:l])
	case *ssa.MakeMap:
		fr.set(in, newMap(in.Type().Underlying().(*types.Map).Key()))
	case *ssa.Range:
		fr.set(in, x.rangeIter(fr, in.X.Type(), fr.get(in.X)))
	case *ssa.Next:
		fr.set(in, fr.get(in.Iter).(iterator).next(x, fr))
	case *ssa.FieldAddr:
		p := fr.get(in.X)
		if sp, ok := p.(*SymPtr); ok {
			p = &sp.arr[x.concIdx(sp.idx, len(sp.arr))]
		}
		s, ok := (*x.deref(p)).(Struct)
		if !ok {
			unsup("FieldAddr on %T", *x.deref(p))
		}
		fr.set(in, &s[in.Field])
	case *ssa.Field:
		fr.set(in, copyVal(fr.get(in.X).(Struct)[in.Field]))
	case *ssa.IndexAddr:
		fr.set(in, x.indexAddr(fr, in))
	case *ssa.Index:
		v := fr.get(in.X)
		i := fr.get(in.Index)
		switch v := v.(type) {
		case Array:
			r := copyVal(x.indexVals([]Value(v), i, in.Index.Type()))
			if t, ok := r.(*Term); ok && isInt(in.Type()) {
				r = fromTerm(x.termW(t, widthOf(in.Type())))
			}
			fr.set(in, r)
		default:
			fr.set(in, x.strIndex(v, i, in.Index.Type()))
		}
	case *ssa.Lookup:
		fr.set(in, x.lookup(fr, in))
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*Map)
		if m == nil {
			panic(targetPanic{x.newError("assignment to entry in nil map")})
		}
		x.raceMapAt(fr, m, true)
		x.mapSet(m, fr.get(in.Key), fr.get(in.Value))
	case *ssa.TypeAssert:
		fr.set(in, x.typeAssert(in, fr.get(in.X).(Iface)))
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.Env = append(c.Env, fr.get(b))
		}
		fr.set(in, c)
	case *ssa.Select:
		fr.set(in, x.doSelect(fr, in))
	default:
		unsup("instruction %T", in)
	}
}

func (x *X) doCall(fr *Frame, c *ssa.CallCommon) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = fr.get(a)
		}
		return x.builtin(fr, b, c, args)
	}
	if fn, ok := c.Value.(*ssa.Function); ok && !c.IsInvoke() {
		// import-init calls are lazy
		if fn.Synthetic == "package initializer" && fr.fn.Synthetic == "package initializer" {
			return nil
		}
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = fr.get(a)
		}
		x.static = true
		return x.call(fr, fn, args, nil)
	}
	f, args := x.prepareCall(fr, c)
	x.static = false
	return x.callValue(fr, f, args)
}

func (x *X) prepareCall(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	var f Value
	if c.IsInvoke() {
		recv := fr.get(c.Value).(Iface)
		if recv.T == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := x.w.eng.lookupMethod(recv.T, c.Method)
		if fn == nil {
			unsup("no method %s on %s", c.Method, recv.T)
		}
		f = x.w.closureOf(fn)
		args = append(args, recv.V)
	} else {
		f = fr.get(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return f, args
}

// callMethod invokes method name on an interface value.
func (x *X) callMethod(fr *Frame, recv Iface, name string, args ...Value) Value {
	fn := x.w.eng.findMethod(recv.T, name)
	if fn == nil {
		unsup("no method %s on %s", name, recv.T)
	}
	x.static = false
	return x.call(fr, fn, append([]Value{recv.V}, args...), nil)
}

func (x *X) hasMethod(t types.Type, name string) bool {
	return t != nil && x.w.eng.findMethod(t, name) != nil
}

type methKey struct {
	t    types.Type
	name string
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if v, ok := e.meths.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.methMu.Lock()
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methMu.Unlock()
	e.meths.Store(k, fn)
	return fn
}

func (e *Engine) findMethod(t types.Type, name string) *ssa.Function {
	k := methKey{t, "\x00" + name}
	if v, ok := e.meths.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	var fn *ssa.Function
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			fn = e.prog.MethodValue(s)
			break
		}
	}
	e.meths.Store(k, fn)
	return fn
}

// ---- operators

func (x *X) unop(fr *Frame, in *ssa.UnOp) Value {
	v := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		if x.schedOn {
			x.raceCell(fr, in.X, v, false)
		}
		r := x.load(v)
		// narrow iteVal artefacts to the static width
		if t, ok := r.(*Term); ok && isInt(in.Type()) {
			if w := widthOf(in.Type()); t.w != w {
				return fromTerm(x.termW(t, w))
			}
		}
		return r
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *Term:
			return fromTerm(x.w.pool.Not(b))
		}
	case token.SUB:
		switch b := v.(type) {
		case uint64:
			return (-b) & mask(widthOf(in.Type()))
		case float64:
			return -b
		case *Term:
			return fromTerm(x.w.pool.Neg(b))
		}
	case token.XOR:
		switch b := v.(type) {
		case uint64:
			return (^b) & mask(widthOf(in.Type()))
		case *Term:
			return fromTerm(x.w.pool.BNot(b))
		}
	case token.ARROW:
		c := v.(*Chan)
		val, ok := x.chanRecv(c)
		if in.CommaOk {
			return Tuple{val, ok}
		}
		return val
	}
	unsup("unop %s %T", in.Op, v)
	return nil
}

func (x *X) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return x.equal(tx, a, b)
	case token.NEQ:
		return x.notV(x.equal(tx, a, b))
	}
	p := x.w.pool
	if isInt(tx) {
		w := widthOf(tx)
		signed := isSigned(tx)
		ca, okA := a.(uint64)
		cb, okB := b.(uint64)
		if okA && okB {
			switch op {
			case token.ADD:
				return (ca + cb) & mask(w)
			case token.SUB:
				return (ca - cb) & mask(w)
			case token.MUL:
				return (ca * cb) & mask(w)
			case token.QUO, token.REM:
				if cb == 0 {
					x.rtPanic("integer divide by zero")
				}
				o := OpUDiv
				switch {
				case op == token.QUO && signed:
					o = OpSDiv
				case op == token.REM && signed:
					o = OpSRem
				case op == token.REM:
					o = OpURem
				}
				return foldBV(o, w, ca, cb)
			case token.AND:
				return ca & cb
			case token.OR:
				return ca | cb
			case token.XOR:
				return ca ^ cb
			case token.AND_NOT:
				return ca &^ cb
			case token.SHL, token.SHR:
				if isSigned(ty) && sext(cb, widthOf(ty)) < 0 {
					x.rtPanic("negative shift amount")
				}
				if op == token.SHL {
					return foldBV(OpShl, w, ca, cb)
				}
				if signed {
					return foldBV(OpAShr, w, ca, cb)
				}
				return foldBV(OpLShr, w, ca, cb)
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if op == token.GTR || op == token.GEQ {
					ca, cb = cb, ca
				}
				strict := op == token.LSS || op == token.GTR
				if signed {
					sa, sb := sext(ca, w), sext(cb, w)
					return sa < sb || (!strict && sa == sb)
				}
				return ca < cb || (!strict && ca == cb)
			}
			unsup("int op %s", op)
		}
		ta := x.termW(a, w)
		switch op {
		case token.SHL, token.SHR:
			wy := widthOf(ty)
			tb := x.termW(b, wy)
			if isSigned(ty) && !tb.isConst() {
				if x.truth(fromTerm(p.Cmp(OpSlt, tb, p.Const(wy, 0)))) {
					x.rtPanic("negative shift amount")
				}
			}
			var big *Term
			if wy > w {
				big = p.Cmp(OpUle, p.Const(wy, uint64(w)), tb)
				tb = p.Extract(tb, w-1, 0)
			} else {
				tb = p.ZExt(tb, w)
				if mask(w) >= uint64(w) {
					big = p.Cmp(OpUle, p.Const(w, uint64(w)), tb)
				} else {
					big = p.F
				}
			}
			var r, ov *Term
			ov = p.Const(w, 0)
			if op == token.SHL {
				r = p.BV(OpShl, ta, tb)
			} else if signed {
				r = p.BV(OpAShr, ta, tb)
				ov = p.BV(OpAShr, ta, p.Const(w, uint64(w-1)))
			} else {
				r = p.BV(OpLShr, ta, tb)
			}
			return fromTerm(p.Ite(big, ov, r))
		}
		tb := x.termW(b, w)
		switch op {
		case token.ADD:
			return fromTerm(p.BV(OpAdd, ta, tb))
		case token.SUB:
			return fromTerm(p.BV(OpSub, ta, tb))
		case token.MUL:
			return fromTerm(p.BV(OpMul, ta, tb))
		case token.QUO, token.REM:
			if x.truth(fromTerm(p.Eq(tb, p.Const(w, 0)))) {
				x.rtPanic("integer divide by zero")
			}
			o := OpUDiv
			switch {
			case op == token.QUO && signed:
				o = OpSDiv
			case op == token.REM && signed:
				o = OpSRem
			case op == token.REM:
				o = OpURem
			}
			return fromTerm(p.BV(o, ta, tb))
		case token.AND:
			return fromTerm(p.BV(OpBAnd, ta, tb))
		case token.OR:
			return fromTerm(p.BV(OpBOr, ta, tb))
		case token.XOR:
			return fromTerm(p.BV(OpBXor, ta, tb))
		case token.AND_NOT:
			return fromTerm(p.BV(OpBAnd, ta, p.BNot(tb)))
		case token.LSS:
			return fromTerm(x.cmp(signed, true, ta, tb))
		case token.LEQ:
			return fromTerm(x.cmp(signed, false, ta, tb))
		case token.GTR:
			return fromTerm(x.cmp(signed, true, tb, ta))
		case token.GEQ:
			return fromTerm(x.cmp(signed, false, tb, ta))
		}
		unsup("int op %s", op)
	}
	if isString(tx) {
		switch op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return x.strLess(a, b, true)
		case token.LEQ:
			return x.strLess(a, b, false)
		case token.GTR:
			return x.strLess(b, a, true)
		case token.GEQ:
			return x.strLess(b, a, false)
		}
	}
	if isFloat(tx) {
		fa, ok1 := a.(float64)
		fb, ok2 := b.(float64)
		if !ok1 || !ok2 {
			unsup("symbolic float")
		}
		rnd := func(f float64) Value {
			if tx.Underlying().(*types.Basic).Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rnd(fa + fb)
		case token.SUB:
			return rnd(fa - fb)
		case token.MUL:
			return rnd(fa * fb)
		case token.QUO:
			return rnd(fa / fb)
		case token.LSS:
			return fa < fb
		case token.LEQ:
			return fa <= fb
		case token.GTR:
			return fa > fb
		case token.GEQ:
			return fa >= fb
		}
	}
	if isBool(tx) {
		ta, tb := x.termW(a, 0), x.termW(b, 0)
		switch op {
		case token.AND, token.LAND:
			return fromTerm(p.And(ta, tb))
		case token.OR, token.LOR:
			return fromTerm(p.Or(ta, tb))
		case token.XOR:
			return fromTerm(p.Not(p.Eq(ta, tb)))
		}
	}
	unsup("binop %s on %s", op, tx)
	return nil
}

func (x *X) cmp(signed, strict bool, a, b *Term) *Term {
	switch {
	case signed && strict:
		return x.w.pool.Cmp(OpSlt, a, b)
	case signed:
		return x.w.pool.Cmp(OpSle, a, b)
	case strict:
		return x.w.pool.Cmp(OpUlt, a, b)
	}
	return x.w.pool.Cmp(OpUle, a, b)
}

func (x *X) notV(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return fromTerm(x.w.pool.Not(v))
	}
	unsup("not %T", v)
	return nil
}

func (x *X) andV(a, b Value) Value {
	if ab, ok := a.(bool); ok {
		if !ab {
			return false
		}
		return b
	}
	if bb, ok := b.(bool); ok {
		if !bb {
			return false
		}
		return a
	}
	return fromTerm(x.w.pool.And(a.(*Term), b.(*Term)))
}

func (x *X) orV(a, b Value) Value { return x.notV(x.andV(x.notV(a), x.notV(b))) }

func (x *X) strEq(a, b Value) Value {
	sa, ok1 := a.(string)
	sb, ok2 := b.(string)
	if ok1 && ok2 {
		return sa == sb
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	ts := make([]*Term, 0, n)
	for i := 0; i < n; i++ {
		t := x.w.pool.Eq(x.termW(strByte(a, i), 8), x.termW(strByte(b, i), 8))
		if t == x.w.pool.F {
			return false
		}
		ts = append(ts, t)
	}
	return fromTerm(x.w.pool.And(ts...))
}

func (x *X) strLess(a, b Value, strict bool) Value {
	sa, ok1 := a.(string)
	sb, ok2 := b.(string)
	if ok1 && ok2 {
		return sa < sb || (!strict && sa == sb)
	}
	p := x.w.pool
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	var r *Term
	if la < lb || (la == lb && !strict) {
		r = p.T
	} else {
		r = p.F
	}
	for i := n - 1; i >= 0; i-- {
		ca, cb := x.termW(strByte(a, i), 8), x.termW(strByte(b, i), 8)
		r = p.Or(p.Cmp(OpUlt, ca, cb), p.And(p.Eq(ca, cb), r))
	}
	return fromTerm(r)
}

// equal implements == for values of static type t; the result is bool or *Term.
func (x *X) equal(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return x.strEq(a, b)
		case u.Info()&types.IsInteger != 0:
			ca, ok1 := a.(uint64)
			cb, ok2 := b.(uint64)
			if ok1 && ok2 {
				return ca == cb
			}
			w := widthOf(t)
			return fromTerm(x.w.pool.Eq(x.termW(a, w), x.termW(b, w)))
		case u.Info()&types.IsBoolean != 0:
			ca, ok1 := a.(bool)
			cb, ok2 := b.(bool)
			if ok1 && ok2 {
				return ca == cb
			}
			return fromTerm(x.w.pool.Eq(x.termW(a, 0), x.termW(b, 0)))
		case u.Info()&types.IsFloat != 0:
			fa, ok1 := a.(float64)
			fb, ok2 := b.(float64)
			if ok1 && ok2 {
				return fa == fb
			}
			unsup("symbolic float")
		}
		return a == b
	case *types.Pointer, *types.Chan:
		if _, ok := a.(*SymPtr); ok {
			unsup("compare symptr")
		}
		return a == b
	case *types.Signature:
		return isNilFunc(a) && isNilFunc(b) || (!isNilFunc(a) && !isNilFunc(b) && a == b)
	case *types.Slice:
		sa, _ := a.([]Value)
		sb, _ := b.([]Value)
		return sa == nil && sb == nil
	case *types.Map:
		return a.(*Map) == nil && b.(*Map) == nil
	case *types.Interface:
		ia, ib := a.(Iface), b.(Iface)
		if ia.T == nil || ib.T == nil {
			return ia.T == nil && ib.T == nil
		}
		if !types.Identical(ia.T, ib.T) {
			return false
		}
		if !types.Comparable(ia.T) {
			x.rtPanic("comparing uncomparable type %s", ia.T)
		}
		return x.equal(ia.T, ia.V, ib.V)
	case *types.Struct:
		sa, sb := a.(Struct), b.(Struct)
		var r Value = true
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = x.andV(r, x.equal(u.Field(i).Type(), sa[i], sb[i]))
			if r == false {
				return r
			}
		}
		return r
	case *types.Array:
		aa, ab := a.(Array), b.(Array)
		var r Value = true
		for i := range aa {
			r = x.andV(r, x.equal(u.Elem(), aa[i], ab[i]))
			if r == false {
				return r
			}
		}
		return r
	}
	unsup("equal on %s", t)
	return nil
}

// ---- indexing

// concIdx forks on the value of a symbolic index already known to be in range.
func (x *X) concIdx(t *Term, n int) int { return int(x.concretize(t)) }

func (x *X) checkIndex(i Value, it types.Type, n int) (int, *Term) {
	if c, ok := i.(uint64); ok {
		w := widthOf(it)
		var s int64
		if isSigned(it) {
			s = sext(c, w)
		} else {
			if c > math.MaxInt64 {
				x.rtPanic("index out of range [%d] with length %d", c, n)
			}
			s = int64(c)
		}
		if s < 0 || s >= int64(n) {
			x.rtPanic("index out of range [%d] with length %d", s, n)
		}
		return int(s), nil
	}
	t := i.(*Term)
	var in *Term
	if isSigned(it) {
		t = x.w.pool.SExt(t, 64)
	} else {
		t = x.w.pool.ZExt(t, 64)
	}
	in = x.w.pool.Cmp(OpUlt, t, x.w.pool.Const(64, uint64(n)))
	if !x.truth(fromTerm(in)) {
		x.rtPanic("index out of range [symbolic] with length %d", n)
	}
	return 0, t
}

func (x *X) indexVals(arr []Value, i Value, it types.Type) Value {
	c, t := x.checkIndex(i, it, len(arr))
	if t == nil {
		return arr[c]
	}
	return x.load(x.symElem(arr, t))
}

func (x *X) symElem(arr []Value, t *Term) Value {
	_, hi := t.urange()
	if hi < uint64(len(arr)-1) {
		arr = arr[:hi+1]
	}
	if len(arr) <= 1024 {
		ok := true
		for _, e := range arr {
			if !isScalar(e) {
				ok = false
				break
			}
		}
		if ok {
			return &SymPtr{arr, t}
		}
	}
	return &arr[x.concretize(t)]
}

func (x *X) strIndex(s, i Value, it types.Type) Value {
	c, t := x.checkIndex(i, it, strLen(s))
	if t == nil {
		return strByte(s, c)
	}
	v := x.load(&SymPtr{strBytes(s), t})
	if tt, ok := v.(*Term); ok {
		return fromTerm(x.termW(tt, 8))
	}
	return v
}

func (x *X) indexAddr(fr *Frame, in *ssa.IndexAddr) Value {
	v := fr.get(in.X)
	var arr []Value
	switch s := v.(type) {
	case []Value:
		arr = s
	case *Value:
		if s == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*s).(Array)
		if !ok {
			unsup("IndexAddr through %T", *s)
		}
		arr = []Value(a)
	default:
		unsup("IndexAddr on %T", v)
	}
	c, t := x.checkIndex(fr.get(in.Index), in.Index.Type(), len(arr))
	if t == nil {
		return &arr[c]
	}
	return x.symElem(arr, t)
}

func (x *X) lookup(fr *Frame, in *ssa.Lookup) Value {
	v := fr.get(in.X)
	m, ok := v.(*Map)
	if !ok {
		return x.strIndex(v, fr.get(in.Index), in.Index.Type())
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	x.raceMapAt(fr, m, false)
	e := x.mapFind(m, fr.get(in.Index))
	if e == nil {
		if in.CommaOk {
			return Tuple{zero(et), false}
		}
		return zero(et)
	}
	if in.CommaOk {
		return Tuple{copyVal(e.v), true}
	}
	return copyVal(e.v)
}

func (x *X) slice(fr *Frame, in *ssa.Slice) Value {
	v := fr.get(in.X)
	bound := func(e ssa.Value, def int) int {
		if e == nil {
			return def
		}
		b := fr.get(e)
		if c, ok := b.(uint64); ok {
			s := sext(c, widthOf(e.Type()))
			if s > 1<<40 || s < 0 {
				return -1
			}
			return int(s)
		}
		// fork on the value
		s := sext(x.concretize(b.(*Term)), widthOf(e.Type()))
		if s > 1<<40 || s < 0 {
			return -1
		}
		return int(s)
	}
	switch s := v.(type) {
	case string, *SymStr:
		n := strLen(s)
		lo, hi := bound(in.Low, 0), bound(in.High, n)
		if lo < 0 || hi < lo || hi > n {
			x.rtPanic("slice bounds out of range [%d:%d] with length %d", lo, hi, n)
		}
		return strSlice(s, lo, hi)
	}
	var arr []Value
	switch s := v.(type) {
	case []Value:
		arr = s
	case *Value:
		if s == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr = []Value((*s).(Array))
	default:
		unsup("slice of %T", v)
	}
	lo, hi, mx := bound(in.Low, 0), bound(in.High, len(arr)), bound(in.Max, cap(arr))
	if lo < 0 || hi < lo || mx < hi || mx > cap(arr) {
		x.rtPanic("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cap(arr))
	}
	if arr == nil {
		return []Value(nil)
	}
	return arr[lo:hi:mx]
}

// ---- conversions

func (x *X) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.Pointer); ok {
		_ = tp
		return v
	}
	switch t := tu.(type) {
	case *types.Slice:
		// string -> []byte / []rune
		if isString(fu) {
			if t.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				b := strBytes(v)
				if b == nil {
					b = []Value{}
				}
				return b
			}
			out := []Value{}
			it := &strIter{s: v}
			for {
				tp := it.next(x, x.cur.fr).(Tuple)
				if tp[0] == false {
					break
				}
				out = append(out, tp[2])
			}
			return out
		}
		return v
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch fs := fu.(type) {
			case *types.Slice:
				sl := v.([]Value)
				if fs.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
					return mkStr(sl)
				}
				var r Value = ""
				for _, c := range sl {
					r = strCat(r, x.runeStr(c))
				}
				return r
			case *types.Basic:
				if fs.Info()&types.IsInteger != 0 {
					if c, ok := v.(uint64); ok {
						return string(rune(sext(c, widthOf(fs))))
					}
					w := widthOf(fs)
					if w < 32 {
						if isSigned(fs) {
							return x.runeStr(fromTerm(x.w.pool.SExt(v.(*Term), 32)))
						}
						return x.runeStr(fromTerm(x.w.pool.ZExt(v.(*Term), 32)))
					}
					if w == 32 {
						return x.runeStr(v)
					}
					unsup("string(int64 symbolic)")
				}
				return v
			}
			return v
		}
		if t.Info()&types.IsInteger != 0 {
			switch c := v.(type) {
			case uint64:
				w := widthOf(t)
				if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 && isSigned(fu) {
					return uint64(sext(c, widthOf(fu))) & mask(w)
				}
				return c & mask(w)
			case float64:
				if isSigned(t) {
					return uint64(int64(c)) & mask(widthOf(t))
				}
				return uint64(c) & mask(widthOf(t))
			case *Term:
				w := widthOf(t)
				fw := c.w
				if w < fw {
					return fromTerm(x.w.pool.Extract(c, w-1, 0))
				}
				if w > fw {
					if isSigned(fu) {
						return fromTerm(x.w.pool.SExt(c, w))
					}
					return fromTerm(x.w.pool.ZExt(c, w))
				}
				return c
			case *Value:
				if c == nil {
					return uint64(0)
				}
				return uint64(0xc000000000) + uint64(len(x.w.consts)) // opaque address
			}
		}
		if t.Info()&types.IsFloat != 0 {
			var f float64
			switch c := v.(type) {
			case float64:
				f = c
			case uint64:
				if isSigned(fu) {
					f = float64(sext(c, widthOf(fu)))
				} else {
					f = float64(c)
				}
			case *Term:
				cv := x.concretize(c)
				if isSigned(fu) {
					f = float64(sext(cv, widthOf(fu)))
				} else {
					f = float64(cv)
				}
			}
			if t.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
		if t.Info()&types.IsBoolean != 0 || t.Info()&types.IsComplex != 0 {
			return v
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	unsup("convert %s -> %s", from, to)
	return nil
}

// runeStr encodes a (possibly symbolic) rune as UTF-8.
func (x *X) runeStr(c Value) Value {
	if u, ok := c.(uint64); ok {
		return string(rune(sext(u, 32)))
	}
	fn := x.w.eng.funcByName("unicode/utf8", "AppendRune")
	r := x.call(x.cur.fr, fn, []Value{[]Value(nil), c}, nil)
	return mkStr(r.([]Value))
}

// ---- interfaces

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := e.impls.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	e.impls.Store(k, r)
	return r
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (x *X) typeAssert(in *ssa.TypeAssert, v Iface) Value {
	at := in.AssertedType
	ok := false
	var res Value
	if v.T != nil {
		if it, isI := at.Underlying().(*types.Interface); isI {
			if x.w.eng.implements(v.T, it) {
				ok, res = true, v
			}
		} else if v.T == at || types.Identical(v.T, at) {
			ok, res = true, copyVal(v.V)
		}
	}
	if in.CommaOk {
		if !ok {
			res = zero(at)
		}
		return Tuple{res, ok}
	}
	if !ok {
		if v.T == nil {
			panic(targetPanic{x.newError(fmt.Sprintf("interface conversion: interface is nil, not %s", at))})
		}
		panic(targetPanic{x.newError(fmt.Sprintf("interface conversion: %s is not %s", v.T, at))})
	}
	return res
}

// ---- iteration

type iterator interface {
	next(x *X, fr *Frame) Value
}

type mapIter struct {
	m    *Map
	ents []*mapEntry
	i    int
}

func (it *mapIter) next(x *X, fr *Frame) Value {
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.dead {
			continue
		}
		return Tuple{true, e.k, copyVal(e.v)}
	}
	return Tuple{false, nil, nil}
}

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(x *X, fr *Frame) Value {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{false, uint64(0), uint64(0)}
	}
	b := strByte(it.s, it.i)
	pos := it.i
	if c, ok := b.(uint64); ok && c < 0x80 {
		it.i++
		return Tuple{true, uint64(pos), c}
	}
	fn := x.w.eng.funcByName("unicode/utf8", "DecodeRuneInString")
	r := x.call(fr, fn, []Value{strSlice(it.s, it.i, n)}, nil).(Tuple)
	sz := x.concInt(r[1])
	it.i += sz
	return Tuple{true, uint64(pos), r[0]}
}

func (x *X) rangeIter(fr *Frame, t types.Type, v Value) Value {
	if m, ok := v.(*Map); ok {
		it := &mapIter{m: m}
		x.raceMapAt(fr, m, false)
		if m != nil {
			it.ents = append(it.ents, m.ents...)
			n := len(it.ents)
			if x.mapOrder && n > 1 && fr.fi.ferryd {
				if n <= 3 {
					// all permutations
					for i := 0; i < n-1; i++ {
						j := i + x.choose(n-i, "maporder")
						it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
					}
				} else {
					c := x.choose(2*n, "maporder")
					rot := c % n
					e2 := append(append([]*mapEntry{}, it.ents[rot:]...), it.ents[:rot]...)
					if c >= n {
						for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
							e2[i], e2[j] = e2[j], e2[i]
						}
					}
					it.ents = e2
				}
			}
		}
		return it
	}
	return &strIter{s: v}
}

// ---- builtins

func (x *X) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst := args[0].([]Value)
		switch s := args[1].(type) {
		case string, *SymStr:
			return append(dst, strBytes(s)...)
		case []Value:
			if len(s) == 0 {
				return dst
			}
			r := dst
			for _, e := range s {
				r = append(r, copyVal(e))
			}
			return r
		}
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch s := args[1].(type) {
		case string, *SymStr:
			src = strBytes(s)
		case []Value:
			src = s
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			storeTo(&dst[i], tmp[i])
		}
		return uint64(n)
	case "len":
		switch v := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(v))
		case []Value:
			return uint64(len(v))
		case Array:
			return uint64(len(v))
		case *Value:
			return uint64(len((*v).(Array)))
		case *Map:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.n)
		case *Chan:
			if v == nil {
				return uint64(0)
			}
			return uint64(len(v.buf))
		}
	case "cap":
		switch v := args[0].(type) {
		case []Value:
			return uint64(cap(v))
		case Array:
			return uint64(len(v))
		case *Value:
			return uint64(len((*v).(Array)))
		case *Chan:
			return uint64(v.cap)
		}
	case "delete":
		if m := args[0].(*Map); m != nil {
			x.raceMapAt(fr, m, true)
			x.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *Map:
			if v != nil {
				for _, e := range v.ents {
					e.dead = true
				}
				v.ents, v.idx, v.n, v.nsym = nil, map[string]*mapEntry{}, 0, 0
			}
			return nil
		case []Value:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range v {
				storeTo(&v[i], zero(et))
			}
			return nil
		}
	case "close":
		x.chanClose(args[0].(*Chan))
		return nil
	case "panic":
		panic(targetPanic{args[0].(Iface)})
	case "recover":
		// fr is the deferred function; its caller holds the panic
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			tp := fr.caller.pan.(targetPanic)
			return tp.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			t := c.Args[0].Type()
			if x.truth(x.binop(op, t, t, a, r)) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			x.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String":
		// unsafe.String(ptr, len)
		n := x.concInt(args[1])
		if n == 0 {
			return ""
		}
		if p, ok := args[0].(*Value); ok && p != nil {
			return mkStr(append([]Value{}, unsafe.Slice(p, n)...))
		}
		unsup("unsafe.String")
	case "StringData":
		if s := strBytes(args[0]); len(s) > 0 {
			return &s[0]
		}
		return (*Value)(nil)
	case "SliceData":
		if s, ok := args[0].([]Value); ok {
			return unsafe.SliceData(s)
		}
		unsup("unsafe.SliceData")
	case "Slice":
		n := x.concInt(args[1])
		if p, ok := args[0].(*Value); ok {
			return unsafe.Slice(p, n)
		}
		unsup("unsafe.Slice")
	}
	unsup("builtin %s on %T", b.Name(), args)
	return nil
}

// concInt forces an integer to a concrete signed value, forking if needed.
func (x *X) concInt(v Value) int {
	switch c := v.(type) {
	case uint64:
		return int(int64(c))
	case *Term:
		return int(sext(x.concretize(c), c.w))
	}
	unsup("concInt %T", v)
	return 0
}
