package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	bool | *Term(w=0)            booleans
//	uint64 | *Term(w>0)          integers, masked to their static width
//	float64                      floats
//	string | *SymStr             strings (concrete length, bytes uint64|*Term)
//	*Value | *SymPtr             pointers (slots)
//	[]Value                      slices (Go aliasing semantics preserved)
//	Struct | Array | Tuple       aggregates, in place
//	*Map | *Chan | *Closure | Iface | *ssa.Builtin
//	anything else                opaque native
type Value any

type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
	Nat func(x *X, fr *Frame, args []Value) Value // native closures
}

type SymStr struct{ b []Value }

type SymPtr struct {
	arr []Value
	idx *Term
}

type mapEntry struct {
	k, v Value
	ck   string
	dead bool
}

type Map struct {
	kt   types.Type
	ents []*mapEntry
	idx  map[string]*mapEntry // concrete keys only
	nsym int
	n    int
	race *mapRace
}

type unsupported struct{ why string }

func unsup(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

func isNilFunc(v Value) bool {
	c, ok := v.(*Closure)
	return ok && c == nil
}

func widthOf(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return 64
		}
		unsup("widthOf %s", t)
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return Iface{}
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	unsup("zero of %s", t)
	return nil
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

// storeTo writes v into slot p, keeping the identity of nested slots.
func storeTo(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if dst, ok := (*p).(Struct); ok && len(dst) == len(v) {
			for i := range v {
				storeTo(&dst[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if dst, ok := (*p).(Array); ok && len(dst) == len(v) {
			for i := range v {
				storeTo(&dst[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---- strings

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	unsup("strLen of %T", v)
	return 0
}

func strByte(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	unsup("strByte of %T", v)
	return nil
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = uint64(s[i])
		}
		return out
	case *SymStr:
		return append(make([]Value, 0, len(s.b)), s.b...)
	}
	unsup("strBytes of %T", v)
	return nil
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{append([]Value(nil), b...)}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.(uint64)))
	}
	return sb.String()
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	unsup("strSlice of %T", v)
	return nil
}

func strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	return mkStr(append(strBytes(a), strBytes(b)...))
}

func strCatAll(vs ...Value) Value {
	var r Value = ""
	for _, v := range vs {
		r = strCat(r, v)
	}
	return r
}

// ---- concrete canonical keys for maps

func concreteKey(v Value) (string, bool) {
	switch k := v.(type) {
	case string:
		return "s" + k, true
	case uint64:
		return fmt.Sprintf("i%d", k), true
	case bool:
		return fmt.Sprintf("b%v", k), true
	case float64:
		return fmt.Sprintf("f%v", k), true
	case *Value:
		return fmt.Sprintf("p%p", k), true
	case *Chan:
		return fmt.Sprintf("c%p", k), true
	case *Closure:
		return fmt.Sprintf("F%p", k), true
	case Iface:
		if k.T == nil {
			return "nil", true
		}
		s, ok := concreteKey(k.V)
		return "I" + k.T.String() + ":" + s, ok
	case Struct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, e := range k {
			s, ok := concreteKey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	case Array:
		var sb strings.Builder
		sb.WriteString("[")
		for _, e := range k {
			s, ok := concreteKey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	case *Term, *SymStr:
		return "", false
	case Tuple, []Value, *Map, *SymPtr:
		unsup("map key %T", v)
	}
	return fmt.Sprintf("o%T%p", v, v), true
}

func newMap(kt types.Type) *Map { return &Map{kt: kt, idx: map[string]*mapEntry{}} }

func (x *X) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ck, ok := concreteKey(k)
	if ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead || (ok && e.ck != "") {
			continue
		}
		if x.truth(x.equal(m.kt, k, e.k)) {
			return e
		}
	}
	return nil
}

func (x *X) mapSet(m *Map, k, v Value) {
	if e := x.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	if ck, ok := concreteKey(k); ok {
		e.ck = ck
		m.idx[ck] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
}

func (x *X) mapDelete(m *Map, k Value) {
	e := x.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if e.ck != "" {
		delete(m.idx, e.ck)
	} else {
		m.nsym--
	}
	for i, o := range m.ents {
		if o == e {
			m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
			break
		}
	}
}

// ---- printing for diagnostics

func show(v Value) string { return showD(v, 4) }
func showD(v Value, d int) string {
	if d == 0 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return fmt.Sprintf("%q", v)
	case *SymStr:
		var sb strings.Builder
		for _, b := range v.b {
			if c, ok := b.(uint64); ok {
				sb.WriteByte(byte(c))
			} else {
				sb.WriteString("?")
			}
		}
		return fmt.Sprintf("sym%q", sb.String())
	case *Term:
		return v.String()
	case *Value:
		if v == nil {
			return "nilptr"
		}
		return "&" + showD(*v, d-1)
	case Struct:
		var p []string
		for _, e := range v {
			p = append(p, showD(e, d-1))
		}
		return "{" + strings.Join(p, ",") + "}"
	case Array:
		return fmt.Sprintf("array[%d]", len(v))
	case []Value:
		var p []string
		for i, e := range v {
			if i > 8 {
				p = append(p, "…")
				break
			}
			p = append(p, showD(e, d-1))
		}
		return "[" + strings.Join(p, ",") + "]"
	case Iface:
		if v.T == nil {
			return "nil"
		}
		return v.T.String() + "(" + showD(v.V, d-1) + ")"
	case *Map:
		if v == nil {
			return "map(nil)"
		}
		var p []string
		for _, e := range v.ents {
			p = append(p, showD(e.k, d-1)+":"+showD(e.v, d-1))
		}
		sort.Strings(p)
		return "map{" + strings.Join(p, ",") + "}"
	}
	return fmt.Sprintf("%v", v)
}
