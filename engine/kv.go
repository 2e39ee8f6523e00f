package main

// Model of goleveldb: an ordered map with snapshot iterators, atomic batches
// and an exclusive lock on the directory.

import (
	"golang.org/x/tools/go/ssa"
)

type kvEnt struct {
	k, v Value // strings
}

type KV struct {
	ents []kvEnt
	idx  map[string]int // concrete keys, only valid while nsym == 0
	nsym int
	open *dbHandle
}

type dbHandle struct {
	kv     *KV
	closed bool
}

type batchOp struct {
	del  bool
	k, v Value
}

type batchState struct{ ops []batchOp }

type kvIter struct {
	err      Value
	ents     []kvEnt
	pos      int // -1 before first
	key, val []Value
	keyOK    bool
	released bool
}

func (kv *KV) reindex() {
	kv.idx = map[string]int{}
	kv.nsym = 0
	for i, e := range kv.ents {
		if s, ok := e.k.(string); ok {
			kv.idx[s] = i
		} else {
			kv.nsym++
		}
	}
}

func (x *X) kvFind(kv *KV, k Value) int {
	if s, ok := k.(string); ok && kv.nsym == 0 {
		if i, ok := kv.idx[s]; ok {
			return i
		}
		return -1
	}
	for i, e := range kv.ents {
		if x.truth(x.strEq(e.k, k)) {
			return i
		}
	}
	return -1
}

func (x *X) kvPut(kv *KV, k, v Value) {
	if i := x.kvFind(kv, k); i >= 0 {
		kv.ents[i].v = v
		return
	}
	kv.ents = append(kv.ents, kvEnt{k, v})
	if s, ok := k.(string); ok {
		kv.idx[s] = len(kv.ents) - 1
	} else {
		kv.nsym++
	}
}

func (x *X) kvDel(kv *KV, k Value) {
	if i := x.kvFind(kv, k); i >= 0 {
		kv.ents = append(kv.ents[:i:i], kv.ents[i+1:]...)
		kv.reindex()
	}
}

func (x *X) kvSnapshot(kv *KV, lo, hi Value, hasHi bool) []kvEnt {
	var out []kvEnt
	for _, e := range kv.ents {
		if lo != nil && x.truth(x.strLess(e.k, lo, true)) {
			continue
		}
		if hasHi && !x.truth(x.strLess(e.k, hi, true)) {
			continue
		}
		out = append(out, e)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && x.truth(x.strLess(out[j].k, out[j-1].k, true)); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func (x *X) ldbErr(name string) Iface {
	return x.load(x.globalAddr(x.w.eng.pkg(ldb).Var(name))).(Iface)
}

func (x *X) bytesStr(v Value) Value {
	b, _ := v.([]Value)
	return mkStr(b)
}

func init() {
	h := func(x *X, v Value) *dbHandle {
		p := x.deref(v)
		d, _ := x.shadow[p].(*dbHandle)
		if d == nil {
			unsup("leveldb handle not opened by model")
		}
		return d
	}
	reg(ldb+".OpenFile", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		fail := func(e Iface) Value { return Tuple{(*Value)(nil), e} }
		if e := x.fsMkdirAll(a[0]); e != 0 {
			return fail(x.pathErr("mkdir", a[0], e))
		}
		_, _, n, e := x.walk(a[0], true)
		if e != 0 || n == nil {
			return fail(x.pathErr("open", a[0], eNOENT))
		}
		kv := x.kv[n]
		if kv == nil {
			kv = &KV{}
			kv.reindex()
			x.kv[n] = kv
			x.fsWrite(strCatAll(a[0], "/CURRENT"), "MANIFEST-000000\n")
			x.fsWrite(strCatAll(a[0], "/LOCK"), "")
		}
		if kv.open != nil {
			return fail(x.errnoIface(eAGAIN))
		}
		d := &dbHandle{kv: kv}
		kv.open = d
		p := new(Value)
		*p = zero(x.w.eng.typeByName(ldb, "DB"))
		x.shadow[p] = d
		return Tuple{p, nilErr}
	})
	db := func(name string, f func(x *X, d *dbHandle, a []Value) Value) {
		reg("(*"+ldb+".DB)."+name, func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			d := h(x, a[0])
			if d.closed {
				e := x.ldbErr("ErrClosed")
				res := fn.Signature.Results()
				if res.Len() == 1 {
					if name == "NewIterator" {
						return x.newIter(nil, e)
					}
					return e
				}
				z := zero(res).(Tuple)
				z[res.Len()-1] = e
				return z
			}
			return f(x, d, a[1:])
		})
	}
	db("Close", func(x *X, d *dbHandle, a []Value) Value {
		d.closed = true
		if d.kv.open == d {
			d.kv.open = nil
		}
		return nilErr
	})
	db("Get", func(x *X, d *dbHandle, a []Value) Value {
		i := x.kvFind(d.kv, x.bytesStr(a[0]))
		if i < 0 {
			return Tuple{[]Value(nil), x.ldbErr("ErrNotFound")}
		}
		return Tuple{strBytes(d.kv.ents[i].v), nilErr}
	})
	db("Has", func(x *X, d *dbHandle, a []Value) Value {
		return Tuple{x.kvFind(d.kv, x.bytesStr(a[0])) >= 0, nilErr}
	})
	db("Put", func(x *X, d *dbHandle, a []Value) Value {
		x.kvPut(d.kv, x.bytesStr(a[0]), x.bytesStr(a[1]))
		return nilErr
	})
	db("Delete", func(x *X, d *dbHandle, a []Value) Value {
		x.kvDel(d.kv, x.bytesStr(a[0]))
		return nilErr
	})
	db("Write", func(x *X, d *dbHandle, a []Value) Value {
		if p, ok := a[0].(*Value); !ok || p == nil {
			return nilErr
		}
		for _, op := range x.batch(a[0]).ops {
			if op.del {
				x.kvDel(d.kv, op.k)
			} else {
				x.kvPut(d.kv, op.k, op.v)
			}
		}
		return nilErr
	})
	db("CompactRange", func(x *X, d *dbHandle, a []Value) Value { return nilErr })
	db("NewIterator", func(x *X, d *dbHandle, a []Value) Value {
		var lo, hi Value
		hasHi := false
		if p, ok := a[0].(*Value); ok && p != nil {
			r := (*p).(Struct)
			if s := r[0].([]Value); s != nil {
				lo = mkStr(s)
			}
			if s := r[1].([]Value); s != nil {
				hi, hasHi = mkStr(s), true
			}
		}
		return x.newIter(x.kvSnapshot(d.kv, lo, hi, hasHi), nilErr)
	})
	bt := func(name string, f func(x *X, b *batchState, a []Value) Value) {
		reg("(*"+ldb+".Batch)."+name, func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			return f(x, x.batch(a[0]), a[1:])
		})
	}
	bt("Put", func(x *X, b *batchState, a []Value) Value {
		b.ops = append(b.ops, batchOp{false, x.bytesStr(a[0]), x.bytesStr(a[1])})
		return nil
	})
	bt("Delete", func(x *X, b *batchState, a []Value) Value {
		b.ops = append(b.ops, batchOp{true, x.bytesStr(a[0]), nil})
		return nil
	})
	bt("Reset", func(x *X, b *batchState, a []Value) Value { b.ops = nil; return nil })
	bt("Len", func(x *X, b *batchState, a []Value) Value { return uint64(len(b.ops)) })

	it := func(name string, f func(x *X, i *kvIter, a []Value) Value) {
		reg("(*"+ldb+".dbIter)."+name, func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			i, _ := x.shadow[a[0]].(*kvIter)
			if i == nil {
				unsup("iterator not created by model")
			}
			return f(x, i, a[1:])
		})
	}
	move := func(i *kvIter, pos int) Value {
		if i.released {
			i.keyOK = false
			return false
		}
		if pos < 0 {
			pos = -1
		}
		if pos > len(i.ents) {
			pos = len(i.ents)
		}
		i.pos = pos
		i.keyOK = pos >= 0 && pos < len(i.ents)
		if i.keyOK {
			// goleveldb reuses one buffer for keys and one for values
			i.key = append(i.key[:0], strBytes(i.ents[pos].k)...)
			i.val = append(i.val[:0], strBytes(i.ents[pos].v)...)
		}
		return i.keyOK
	}
	it("Next", func(x *X, i *kvIter, a []Value) Value { return move(i, i.pos+1) })
	it("Prev", func(x *X, i *kvIter, a []Value) Value { return move(i, i.pos-1) })
	it("First", func(x *X, i *kvIter, a []Value) Value { return move(i, 0) })
	it("Last", func(x *X, i *kvIter, a []Value) Value { return move(i, len(i.ents)-1) })
	it("Seek", func(x *X, i *kvIter, a []Value) Value {
		k := x.bytesStr(a[0])
		for n, e := range i.ents {
			if !x.truth(x.strLess(e.k, k, true)) {
				return move(i, n)
			}
		}
		return move(i, len(i.ents))
	})
	it("Valid", func(x *X, i *kvIter, a []Value) Value { return i.keyOK })
	it("Key", func(x *X, i *kvIter, a []Value) Value {
		if !i.keyOK {
			return []Value(nil)
		}
		return i.key
	})
	it("Value", func(x *X, i *kvIter, a []Value) Value {
		if !i.keyOK {
			return []Value(nil)
		}
		return i.val
	})
	it("Release", func(x *X, i *kvIter, a []Value) Value { i.released = true; i.keyOK = false; return nil })
	it("SetReleaser", func(x *X, i *kvIter, a []Value) Value { return nil })
	it("Error", func(x *X, i *kvIter, a []Value) Value { return i.err })
}

func (x *X) batch(p Value) *batchState {
	b, _ := x.shadow[x.deref(p)].(*batchState)
	if b == nil {
		b = &batchState{}
		x.shadow[x.deref(p)] = b
	}
	return b
}

func (x *X) newIter(ents []kvEnt, err Value) Value {
	t := x.w.eng.typeByName(ldb, "dbIter")
	p := new(Value)
	*p = Struct{}
	x.shadow[p] = &kvIter{ents: ents, pos: -1, err: err}
	return Iface{T: x.w.eng.ptrTo(t), V: p}
}
