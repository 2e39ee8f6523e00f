package main

// Hash-consed terms over Bool (width 0) and bit-vectors (width 1..64), with
// constant folding, model evaluation and SMT-LIB2 printing.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpNeg
	OpBNot
	OpExtract // val = hi<<8|lo
	OpZExt
	OpSExt
	OpConcat
)

type Term struct {
	op    Op
	w     uint8 // 0 = bool
	id    int32
	val   uint64 // const value / extract bounds
	name  string
	a     []*Term
	epoch int32 // evaluation cache
	ev    uint64
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	name    string
	x, y, z int32
}

type Pool struct {
	m     map[termKey]*Term
	nary  map[string]*Term
	next  int32
	T, F  *Term
	epoch int32
}

func NewPool() *Pool {
	p := &Pool{m: map[termKey]*Term{}, nary: map[string]*Term{}}
	p.F = p.raw(OpConst, 0, 0, "")
	p.T = p.raw(OpConst, 0, 1, "")
	return p
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (p *Pool) raw(op Op, w uint8, val uint64, name string, a ...*Term) *Term {
	if len(a) <= 3 {
		k := termKey{op: op, w: w, val: val, name: name, x: -1, y: -1, z: -1}
		if len(a) > 0 {
			k.x = a[0].id
		}
		if len(a) > 1 {
			k.y = a[1].id
		}
		if len(a) > 2 {
			k.z = a[2].id
		}
		if t, ok := p.m[k]; ok {
			return t
		}
		t := &Term{op: op, w: w, id: p.next, val: val, name: name, a: append([]*Term(nil), a...)}
		p.next++
		p.m[k] = t
		return t
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d/%d", op, w)
	for _, x := range a {
		fmt.Fprintf(&sb, ",%d", x.id)
	}
	k := sb.String()
	if t, ok := p.nary[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: p.next, val: val, name: name, a: append([]*Term(nil), a...)}
	p.next++
	p.nary[k] = t
	return t
}

func (p *Pool) Const(w uint8, v uint64) *Term { return p.raw(OpConst, w, v&mask(w), "") }
func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.T
	}
	return p.F
}
func (p *Pool) Var(w uint8, name string) *Term { return p.raw(OpVar, w, 0, name) }
func (t *Term) isConst() bool                  { return t.op == OpConst }

func (p *Pool) Not(x *Term) *Term {
	if x.isConst() {
		return p.Bool(x.val == 0)
	}
	if x.op == OpNot {
		return x.a[0]
	}
	return p.raw(OpNot, 0, 0, "", x)
}

func (p *Pool) And(xs ...*Term) *Term { return p.andor(OpAnd, xs) }
func (p *Pool) Or(xs ...*Term) *Term  { return p.andor(OpOr, xs) }

func (p *Pool) andor(op Op, xs []*Term) *Term {
	absorb, unit := p.F, p.T
	if op == OpOr {
		absorb, unit = p.T, p.F
	}
	var out []*Term
	seen := map[int32]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == absorb {
			return false
		}
		if x == unit || seen[x.id] {
			return true
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[p.Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return absorb
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return p.raw(op, 0, 0, "", out...)
}

func (p *Pool) Eq(x, y *Term) *Term {
	if x == y {
		return p.T
	}
	if x.isConst() && y.isConst() {
		return p.Bool(x.val == y.val)
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.w == 0 {
		if y.isConst() {
			if y.val == 1 {
				return x
			}
			return p.Not(x)
		}
	}
	if y.isConst() {
		switch x.op {
		case OpIte:
			// push equality with a constant into constant-leaf ites
			if x.a[1].isConst() || x.a[2].isConst() {
				return p.Ite(x.a[0], p.Eq(x.a[1], y), p.Eq(x.a[2], y))
			}
		case OpZExt:
			in := x.a[0]
			if y.val > mask(in.w) {
				return p.F
			}
			return p.Eq(in, p.Const(in.w, y.val))
		case OpSExt:
			in := x.a[0]
			if uint64(sext(y.val&mask(in.w), in.w))&mask(x.w) != y.val {
				return p.F
			}
			return p.Eq(in, p.Const(in.w, y.val))
		case OpAdd:
			if x.a[1].isConst() {
				return p.Eq(x.a[0], p.Const(x.w, y.val-x.a[1].val))
			}
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	return p.raw(OpEq, 0, 0, "", x, y)
}

func (p *Pool) Ite(c, x, y *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.isConst() {
			if x.val == 1 {
				return p.Or(c, y)
			}
			return p.And(p.Not(c), y)
		}
		if y.isConst() {
			if y.val == 1 {
				return p.Or(p.Not(c), x)
			}
			return p.And(c, x)
		}
	}
	return p.raw(OpIte, x.w, 0, "", c, x, y)
}

func foldBV(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpSDiv:
		if y == 0 {
			if sext(x, w) < 0 {
				return 1
			}
			return m
		}
		if sext(y, w) == -1 {
			return (-x) & m
		}
		return uint64(sext(x, w)/sext(y, w)) & m
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSRem:
		if y == 0 {
			return x
		}
		if sext(y, w) == -1 {
			return 0
		}
		return uint64(sext(x, w)%sext(y, w)) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("foldBV")
}

func foldCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OpUlt:
		return x < y
	case OpUle:
		return x <= y
	case OpSlt:
		return sext(x, w) < sext(y, w)
	case OpSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("foldCmp")
}

// urange returns an unsigned interval containing t's values.
func (t *Term) urange() (lo, hi uint64) {
	switch t.op {
	case OpConst:
		return t.val, t.val
	case OpZExt:
		return t.a[0].urange()
	case OpIte:
		l1, h1 := t.a[1].urange()
		l2, h2 := t.a[2].urange()
		return min(l1, l2), max(h1, h2)
	case OpBAnd:
		if t.a[1].isConst() {
			return 0, t.a[1].val
		}
	case OpLShr:
		if t.a[1].isConst() && t.a[1].val < 64 {
			return 0, mask(t.w) >> t.a[1].val
		}
	case OpURem:
		if t.a[1].isConst() && t.a[1].val > 0 {
			return 0, t.a[1].val - 1
		}
	}
	return 0, mask(t.w)
}

func (p *Pool) Cmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return p.Bool(foldCmp(op, x.w, x.val, y.val))
	}
	if x == y {
		return p.Bool(op == OpUle || op == OpSle)
	}
	xl, xh := x.urange()
	yl, yh := y.urange()
	half := uint64(1) << (x.w - 1)
	if op == OpUlt || op == OpUle || (xh < half && yh < half) {
		strict := op == OpUlt || op == OpSlt
		if xh < yl || (!strict && xh == yl) {
			return p.T
		}
		if xl > yh || (strict && xl == yh) {
			return p.F
		}
	}
	// narrow zero-extended comparisons against constants
	if x.op == OpZExt && y.isConst() && xh < half && y.val < half && y.val <= mask(x.a[0].w) {
		o := OpUlt
		if op == OpUle || op == OpSle {
			o = OpUle
		}
		return p.Cmp(o, x.a[0], p.Const(x.a[0].w, y.val))
	}
	if y.op == OpZExt && x.isConst() && yh < half && x.val < half && x.val <= mask(y.a[0].w) {
		o := OpUlt
		if op == OpUle || op == OpSle {
			o = OpUle
		}
		return p.Cmp(o, p.Const(y.a[0].w, x.val), y.a[0])
	}
	// canonical form against constants: x <= c or its negation
	switch {
	case y.isConst() && op == OpUlt:
		return p.Cmp(OpUle, x, p.Const(x.w, y.val-1))
	case y.isConst() && op == OpSlt:
		if y.val == half {
			return p.F
		}
		return p.Cmp(OpSle, x, p.Const(x.w, y.val-1))
	case x.isConst() && op == OpUlt:
		return p.Not(p.Cmp(OpUle, y, x))
	case x.isConst() && op == OpUle:
		if x.val == 0 {
			return p.T
		}
		return p.Not(p.Cmp(OpUle, y, p.Const(x.w, x.val-1)))
	case x.isConst() && op == OpSlt:
		return p.Not(p.Cmp(OpSle, y, x))
	case x.isConst() && op == OpSle:
		if x.val == half {
			return p.T
		}
		return p.Not(p.Cmp(OpSle, y, p.Const(x.w, x.val-1)))
	}
	return p.raw(op, 0, 0, "", x, y)
}

func (p *Pool) BV(op Op, x, y *Term) *Term {
	w := x.w
	if x.w != y.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", x.w, y.w, op))
	}
	if x.isConst() && y.isConst() {
		return p.Const(w, foldBV(op, w, x.val, y.val))
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if x.isConst() {
			x, y = y, x
		}
	}
	if y.isConst() {
		switch op {
		case OpAdd:
			if y.val == 0 {
				return x
			}
			if x.op == OpAdd && x.a[1].isConst() {
				return p.BV(OpAdd, x.a[0], p.Const(w, x.a[1].val+y.val))
			}
		case OpSub:
			return p.BV(OpAdd, x, p.Const(w, -y.val))
		case OpBOr, OpBXor:
			if y.val == 0 {
				return x
			}
		case OpShl, OpLShr, OpAShr:
			if y.val == 0 {
				return x
			}
			if op != OpAShr && y.val >= uint64(w) {
				return p.Const(w, 0)
			}
		case OpMul:
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
		case OpBAnd:
			if y.val == 0 {
				return y
			}
			if y.val == mask(w) {
				return x
			}
			if _, hi := x.urange(); bits.OnesCount64(y.val+1) == 1 && hi <= y.val {
				return x
			}
		case OpUDiv, OpSDiv:
			if y.val == 1 {
				return x
			}
		}
	}
	if op == OpSub && x == y {
		return p.Const(w, 0)
	}
	return p.raw(op, w, 0, "", x, y)
}

func (p *Pool) Neg(x *Term) *Term { return p.BV(OpSub, p.Const(x.w, 0), x) }
func (p *Pool) BNot(x *Term) *Term {
	if x.isConst() {
		return p.Const(x.w, ^x.val)
	}
	return p.raw(OpBNot, x.w, 0, "", x)
}
func (p *Pool) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	if x.isConst() {
		return p.Const(w, x.val>>lo)
	}
	if (x.op == OpZExt || x.op == OpSExt) && lo == 0 {
		in := x.a[0]
		if w == in.w {
			return in
		}
		if w < in.w {
			return p.Extract(in, hi, 0)
		}
		if x.op == OpZExt {
			return p.ZExt(in, w)
		}
		return p.SExt(in, w)
	}
	if x.op == OpIte && x.a[1].isConst() && x.a[2].isConst() {
		return p.Ite(x.a[0], p.Extract(x.a[1], hi, lo), p.Extract(x.a[2], hi, lo))
	}
	return p.raw(OpExtract, w, uint64(hi)<<8|uint64(lo), "", x)
}
func (p *Pool) ZExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return p.Const(w, x.val)
	}
	if x.op == OpZExt {
		return p.ZExt(x.a[0], w)
	}
	if x.op == OpIte && x.a[1].isConst() && x.a[2].isConst() {
		return p.Ite(x.a[0], p.ZExt(x.a[1], w), p.ZExt(x.a[2], w))
	}
	return p.raw(OpZExt, w, 0, "", x)
}
func (p *Pool) SExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return p.Const(w, uint64(sext(x.val, x.w)))
	}
	if x.op == OpZExt {
		return p.ZExt(x.a[0], w)
	}
	return p.raw(OpSExt, w, 0, "", x)
}

// Model assigns values to variable names; absent variables are 0.
type Model map[string]uint64

func (p *Pool) Eval(t *Term, m Model) uint64 {
	p.epoch++
	return p.eval(t, m, p.epoch)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (p *Pool) eval(t *Term, m Model, ep int32) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.epoch == ep {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OpVar:
		r = m[t.name] & mask(t.w)
	case OpNot:
		r = 1 - p.eval(t.a[0], m, ep)
	case OpAnd:
		r = 1
		for _, x := range t.a {
			if p.eval(x, m, ep) == 0 {
				r = 0
				break
			}
		}
	case OpOr:
		for _, x := range t.a {
			if p.eval(x, m, ep) == 1 {
				r = 1
				break
			}
		}
	case OpEq:
		r = b2u(p.eval(t.a[0], m, ep) == p.eval(t.a[1], m, ep))
	case OpIte:
		if p.eval(t.a[0], m, ep) == 1 {
			r = p.eval(t.a[1], m, ep)
		} else {
			r = p.eval(t.a[2], m, ep)
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		r = b2u(foldCmp(t.op, t.a[0].w, p.eval(t.a[0], m, ep), p.eval(t.a[1], m, ep)))
	case OpBNot:
		r = ^p.eval(t.a[0], m, ep) & mask(t.w)
	case OpExtract:
		r = (p.eval(t.a[0], m, ep) >> (t.val & 0xff)) & mask(t.w)
	case OpZExt:
		r = p.eval(t.a[0], m, ep)
	case OpSExt:
		r = uint64(sext(p.eval(t.a[0], m, ep), t.a[0].w)) & mask(t.w)
	default:
		r = foldBV(t.op, t.w, p.eval(t.a[0], m, ep), p.eval(t.a[1], m, ep))
	}
	t.epoch, t.ev = ep, r
	return r
}

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpNeg: "bvneg", OpBNot: "bvnot", OpConcat: "concat"}

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

// smtHead prints the node with children printed by ref.
func (t *Term) smt(ref func(*Term) string) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OpVar:
		return "|" + t.name + "|"
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, ref(t.a[0]))
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, ref(t.a[0]))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, ref(t.a[0]))
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	for _, x := range t.a {
		sb.WriteString(" " + ref(x))
	}
	sb.WriteString(")")
	return sb.String()
}

func (t *Term) String() string {
	n := 0
	var ref func(*Term) string
	ref = func(x *Term) string {
		n++
		if n > 60 {
			return "…"
		}
		return x.smt(ref)
	}
	return ref(t)
}
