package main

// Models of the standard library around the code under test: fmt, os/exec
// (xz, zstd), archive/zip, archive/tar, digests and concrete fast paths.

import (
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/BurntSushi/toml"
	"golang.org/x/tools/go/ssa"
)

func parseTOML(s string) (map[string]any, error) {
	m := map[string]any{}
	_, err := toml.Decode(s, &m)
	return m, err
}

// ---------------------------------------------------------------- fmt

// nativeOf converts a concrete basic value to its native Go form.
func nativeOf(t types.Type, v Value) (any, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch c := v.(type) {
	case bool:
		return c, true
	case string:
		return c, true
	case float64:
		return c, true
	case uint64:
		s := sext(c, widthOf(t))
		switch b.Kind() {
		case types.Int:
			return int(s), true
		case types.Int8:
			return int8(s), true
		case types.Int16:
			return int16(s), true
		case types.Int32, types.UntypedRune:
			return int32(s), true
		case types.Int64:
			return s, true
		case types.Uint8:
			return uint8(c), true
		case types.Uint16:
			return uint16(c), true
		case types.Uint32:
			return uint32(c), true
		case types.Uint, types.Uintptr:
			return uint(c), true
		}
		return c, true
	}
	return nil, false
}

// fmtOne renders one operand under a verb specification such as "%05d".
func (x *X) fmtOne(fr *Frame, spec string, verb byte, a Iface) Value {
	if a.T == nil {
		return fmt.Sprintf(spec, nil)
	}
	if verb == 'T' {
		return a.T.String()
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	if strings.IndexByte("svqxX", verb) >= 0 && !(verb == 'v' && strings.ContainsAny(spec, "#")) {
		for _, m := range []string{"Error", "String"} {
			if fn := x.w.eng.findMethod(a.T, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
				if p, ok := a.V.(*Value); ok && p == nil {
					return "<nil>"
				}
				return x.fmtStr(spec, verb, x.callMethod(fr, a, m))
			}
		}
	}
	if n, ok := nativeOf(a.T, a.V); ok {
		return fmt.Sprintf(spec, n)
	}
	u := a.T.Underlying()
	if b, ok := u.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return x.fmtStr(spec, verb, a.V)
		case b.Info()&types.IsBoolean != 0:
			return fmt.Sprintf(spec, x.truth(a.V))
		case b.Info()&types.IsInteger != 0:
			return x.fmtInt(spec, verb, a.T, a.V)
		}
		unsup("fmt %s of symbolic %s", spec, a.T)
	}
	switch s := a.V.(type) {
	case []Value:
		if isBytes(a.T) && verb != 'v' && verb != 'd' {
			return x.fmtStr(spec, verb, mkStr(s))
		}
		et := u.(*types.Slice).Elem()
		return x.fmtList(fr, spec, verb, et, s, "[", "]")
	case Array:
		if at, ok := u.(*types.Array); ok {
			if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && strings.IndexByte("sqxX", verb) >= 0 {
				return x.fmtStr(spec, verb, mkStr(s))
			}
			return x.fmtList(fr, spec, verb, u.(*types.Array).Elem(), []Value(s), "[", "]")
		}
	case Struct:
		st := u.(*types.Struct)
		var r Value = "{"
		for i, f := range s {
			if i > 0 {
				r = strCat(r, " ")
			}
			if strings.Contains(spec, "+") {
				r = strCatAll(r, st.Field(i).Name(), ":")
			}
			r = strCat(r, x.fmtOne(fr, spec, verb, x.asIface(st.Field(i).Type(), f)))
		}
		return strCat(r, "}")
	case *Value:
		if s == nil {
			return "<nil>"
		}
		if st, ok := (*s).(Struct); ok && fr != nil {
			return strCat("&", x.fmtOne(fr, spec, verb, Iface{T: u.(*types.Pointer).Elem(), V: st}))
		}
		return "0xc000000000"
	case *Map:
		mt := u.(*types.Map)
		var r Value = "map["
		if s != nil {
			for i, e := range s.ents {
				if i > 0 {
					r = strCat(r, " ")
				}
				r = strCatAll(r, x.fmtOne(fr, spec, verb, x.asIface(mt.Key(), e.k)), ":", x.fmtOne(fr, spec, verb, x.asIface(mt.Elem(), e.v)))
			}
		}
		return strCat(r, "]")
	}
	return "0xc000000000"
}

func (x *X) asIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{T: t, V: v}
}

func (x *X) fmtList(fr *Frame, spec string, verb byte, et types.Type, s []Value, open, cls string) Value {
	var r Value = open
	for i, e := range s {
		if i > 0 {
			r = strCat(r, " ")
		}
		r = strCat(r, x.fmtOne(fr, spec, verb, x.asIface(et, e)))
	}
	return strCat(r, cls)
}

func (x *X) fmtStr(spec string, verb byte, s Value) Value {
	if c, ok := s.(string); ok {
		return fmt.Sprintf(spec[:len(spec)-1]+string(verb), c)
	}
	if spec == "%+v" {
		return s
	}
	if len(spec) > 2 {
		unsup("fmt %s of a symbolic string", spec)
	}
	switch verb {
	case 's', 'v':
		return s
	case 'x', 'X':
		var out []Value
		for _, b := range strBytes(s) {
			out = append(out, x.hexDigit(b, 4, verb == 'X'), x.hexDigit(b, 0, verb == 'X'))
		}
		return mkStr(out)
	case 'q':
		return strCatAll("\"", s, "\"") // diagnostics only
	}
	unsup("fmt %s of a symbolic string", spec)
	return nil
}

func (x *X) hexDigit(b Value, sh uint, upper bool) Value {
	p := x.w.pool
	a := uint64('a' - 10)
	if upper {
		a = 'A' - 10
	}
	t, ok := b.(*Term)
	if !ok {
		d := (b.(uint64) >> sh) & 15
		if d < 10 {
			return '0' + d
		}
		return a + d
	}
	d := p.Extract(p.BV(OpLShr, t, p.Const(t.w, uint64(sh))), 3, 0)
	d8 := p.ZExt(d, 8)
	return fromTerm(p.Ite(p.Cmp(OpUlt, d8, p.Const(8, 10)), p.BV(OpAdd, d8, p.Const(8, '0')), p.BV(OpAdd, d8, p.Const(8, a))))
}

func (x *X) fmtInt(spec string, verb byte, t types.Type, v Value) Value {
	w := widthOf(t)
	pad := 0
	zeroPad := false
	if len(spec) > 2 {
		f := spec[1 : len(spec)-1]
		if strings.HasPrefix(f, "0") {
			zeroPad = true
		}
		n, err := strconv.Atoi(f)
		if err != nil || n < 0 {
			unsup("fmt %s of a symbolic integer", spec)
		}
		pad = n
	}
	padTo := func(s Value) Value {
		for strLen(s) < pad {
			if zeroPad {
				s = strCat("0", s)
			} else {
				s = strCat(" ", s)
			}
		}
		return s
	}
	switch verb {
	case 'd', 'v':
		s := x.itoa(v, w, isSigned(t))
		if zeroPad && strLen(s) < pad && x.truth(x.strEq(strSlice(s, 0, 1), "-")) {
			unsup("fmt %s of a negative symbolic integer", spec)
		}
		return padTo(s)
	case 'x', 'X':
		tm := v.(*Term)
		p := x.w.pool
		if isSigned(t) && x.truth(fromTerm(p.Cmp(OpSlt, tm, p.Const(w, 0)))) {
			unsup("fmt %%x of a negative symbolic integer")
		}
		n := 1
		for n*4 < int(w) {
			if x.truth(fromTerm(p.Cmp(OpUlt, tm, p.Const(w, uint64(1)<<(4*n))))) {
				break
			}
			n++
		}
		var out []Value
		for i := n - 1; i >= 0; i-- {
			out = append(out, x.hexDigit(tm, uint(4*i), verb == 'X'))
		}
		return padTo(mkStr(out))
	case 'c':
		return x.runeStr(fromTerm(x.termW(v, 32)))
	}
	unsup("fmt %s of a symbolic integer", spec)
	return nil
}

func (x *X) sprintf(fr *Frame, format Value, args []Value) Value {
	f, ok := format.(string)
	if !ok {
		// a symbolic format string: only sound when it cannot contain '%'
		for _, b := range strBytes(format) {
			if x.truth(fromTerm(x.w.pool.Eq(x.termW(b, 8), x.w.pool.Const(8, '%')))) {
				unsup("symbolic format string with a verb")
			}
		}
		if len(args) == 0 {
			return format
		}
		unsup("symbolic format string with operands")
	}
	var out Value = ""
	ai := 0
	lit := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		out = strCat(out, f[lit:i])
		j := i + 1
		star := ""
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			if f[j] == '*' {
				if ai < len(args) {
					star += fmt.Sprint(x.concInt(args[ai].(Iface).V))
					ai++
				}
			} else {
				star += string(f[j])
			}
			j++
		}
		if j >= len(f) {
			out = strCat(out, "%!(NOVERB)")
			lit = len(f)
			break
		}
		verb := f[j]
		spec := "%" + star + string(verb)
		switch {
		case verb == '%':
			out = strCat(out, "%")
		case ai >= len(args):
			out = strCat(out, "%!"+string(verb)+"(MISSING)")
		default:
			a := args[ai].(Iface)
			ai++
			if verb == 'w' {
				verb = 'v'
				spec = "%" + star + "v"
			}
			out = strCat(out, x.fmtOne(fr, spec, verb, a))
		}
		i = j
		lit = j + 1
	}
	if lit < len(f) {
		out = strCat(out, f[lit:])
	}
	if ai < len(args) {
		out = strCat(out, "%!(EXTRA)")
	}
	return out
}

func (x *X) sprint(fr *Frame, args []Value, ln bool) Value {
	var out Value = ""
	prevStr := true
	for i, v := range args {
		a := v.(Iface)
		isStr := a.T != nil && isString(a.T)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = strCat(out, " ")
		}
		out = strCat(out, x.fmtOne(fr, "%v", 'v', a))
		prevStr = isStr
	}
	if ln {
		out = strCat(out, "\n")
	}
	return out
}

func variadic(v Value) []Value {
	s, _ := v.([]Value)
	return s
}

// sscan parses whitespace separated operands (the subset scanf("%d"/"%s") needs).
func (x *X) sscan(fr *Frame, in Value, verbs []byte, ptrs []Value) (int, Iface, int) {
	pos := 0
	L := strLen(in)
	is := func(i int, f func(c byte) bool, sym func(t *Term) *Term) bool {
		b := strByte(in, i)
		if c, ok := b.(uint64); ok {
			return f(byte(c))
		}
		return x.truth(fromTerm(sym(x.termW(b, 8))))
	}
	p := x.w.pool
	isSpace := func(i int) bool {
		return is(i, func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }, func(t *Term) *Term {
			return p.Or(p.Eq(t, p.Const(8, ' ')), p.Eq(t, p.Const(8, '\t')), p.Eq(t, p.Const(8, '\n')), p.Eq(t, p.Const(8, '\r')))
		})
	}
	isDigit := func(i int) bool {
		return is(i, func(c byte) bool { return c >= '0' && c <= '9' }, func(t *Term) *Term {
			return p.And(p.Cmp(OpUle, p.Const(8, '0'), t), p.Cmp(OpUle, t, p.Const(8, '9')))
		})
	}
	for k, pv := range ptrs {
		pi := pv.(Iface)
		pt := pi.T.Underlying().(*types.Pointer).Elem()
		for pos < L && isSpace(pos) {
			pos++
		}
		st := pos
		if isInt(pt) {
			if pos < L && is(pos, func(c byte) bool { return c == '-' || c == '+' }, func(t *Term) *Term { return p.Or(p.Eq(t, p.Const(8, '-')), p.Eq(t, p.Const(8, '+'))) }) {
				pos++
			}
			d0 := pos
			for pos < L && isDigit(pos) {
				pos++
			}
			if pos == d0 {
				if d0 >= L && st == d0 {
					if k == 0 {
						return k, x.eofErr(), pos
					}
					return k, x.load(x.globalAddr(x.w.eng.pkg("io").Var("ErrUnexpectedEOF"))).(Iface), pos
				}
				return k, x.newError("expected integer"), pos
			}
			txt := strSlice(in, st, pos)
			r := x.call(fr, x.w.eng.funcByName("strconv", "ParseInt"), []Value{txt, uint64(10), uint64(widthOf(pt))}, nil).(Tuple)
			if e := r[1].(Iface); e.T != nil {
				return k, x.newError("integer overflow on token"), pos
			}
			v := r[0]
			if c, ok := v.(uint64); ok {
				v = c & mask(widthOf(pt))
			} else {
				v = fromTerm(x.termW(v, widthOf(pt)))
			}
			x.store(pi.V, v)
			continue
		}
		if isString(pt) {
			for pos < L && !isSpace(pos) {
				pos++
			}
			if pos == st {
				return k, x.eofErr(), pos
			}
			x.store(pi.V, strSlice(in, st, pos))
			continue
		}
		unsup("scan into %s", pt)
	}
	return len(ptrs), nilErr, pos
}

func init() {
	reg("os.runtime_args", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return []Value{"/bin/vreplay"} })
	reg("fmt.Sprintf", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.sprintf(fr, a[0], variadic(a[1]))
	})
	reg("fmt.Sprint", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.sprint(fr, variadic(a[0]), false) })
	reg("fmt.Sprintln", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.sprint(fr, variadic(a[0]), true) })
	reg("fmt.Appendf", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return append(a[0].([]Value), strBytes(x.sprintf(fr, a[1], variadic(a[2])))...)
	})
	reg("fmt.Append", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return append(a[0].([]Value), strBytes(x.sprint(fr, variadic(a[1]), false))...)
	})
	reg("fmt.Errorf", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		args := variadic(a[1])
		msg := x.sprintf(fr, a[0], args)
		f, _ := a[0].(string)
		ai := 0
		var wrapped []Iface
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i < len(f) && f[i] != '%' {
				if f[i] == 'w' && ai < len(args) {
					wrapped = append(wrapped, args[ai].(Iface))
				}
				ai++
			}
		}
		if len(wrapped) == 0 {
			return x.newError(msg)
		}
		p := new(Value)
		*p = Struct{msg, wrapped[0]}
		return Iface{T: x.w.eng.ptrTo(x.w.eng.typeByName("fmt", "wrapError")), V: p}
	})
	toW := func(x *X, fr *Frame, w Iface, s Value) Value {
		if of := x.fileOf(w.V); of != nil {
			if of.std {
				return Tuple{uint64(strLen(s)), nilErr}
			}
		}
		if w.T == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		return x.callMethod(fr, w, "Write", strBytes(s))
	}
	reg("fmt.Fprintf", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return toW(x, fr, a[0].(Iface), x.sprintf(fr, a[1], variadic(a[2])))
	})
	reg("fmt.Fprint", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return toW(x, fr, a[0].(Iface), x.sprint(fr, variadic(a[1]), false))
	})
	reg("fmt.Fprintln", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return toW(x, fr, a[0].(Iface), x.sprint(fr, variadic(a[1]), true))
	})
	// Widths of plain texts, for tables
	for _, n := range []string{"github.com/olekukonko/tablewriter.DisplayWidth", "github.com/mattn/go-runewidth.StringWidth"} {
		reg(n, func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			s, ok := a[0].(string)
			if !ok {
				unsup("width of a symbolic text")
			}
			for i := 0; i < len(s); i++ {
				if s[i] < 32 || s[i] > 126 {
					unsup("width of %q", s)
				}
			}
			return uint64(len(s))
		})
	}
	// Output counts only when the harness redirected it
	stdout := func(x *X, fr *Frame, s func() Value) Value {
		g := x.w.eng.pkgs["os"].Var("Stdout")
		f := *x.globalAddr(g)
		if of := x.fileOf(f); of == nil || of.std {
			return Tuple{uint64(0), nilErr}
		}
		return toW(x, fr, Iface{T: g.Type().(*types.Pointer).Elem(), V: f}, s())
	}
	reg("fmt.Printf", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return stdout(x, fr, func() Value { return x.sprintf(fr, a[0], variadic(a[1])) })
	})
	reg("fmt.Print", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return stdout(x, fr, func() Value { return x.sprint(fr, variadic(a[0]), false) })
	})
	reg("fmt.Println", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return stdout(x, fr, func() Value { return x.sprint(fr, variadic(a[0]), true) })
	})
	scanF := func(x *X, fr *Frame, in Value, format Value, ptrs []Value) (int, Iface) {
		f, ok := format.(string)
		if !ok {
			unsup("symbolic scan format")
		}
		var verbs []byte
		for i := 0; i+1 < len(f); i++ {
			if f[i] == '%' {
				verbs = append(verbs, f[i+1])
				i++
			} else if f[i] != ' ' && f[i] != '\n' {
				unsup("scan format %q", f)
			}
		}
		n, e, _ := x.sscan(fr, in, verbs, ptrs)
		return n, e
	}
	reg("fmt.Sscanf", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, e := scanF(x, fr, a[0], a[1], variadic(a[2]))
		return Tuple{uint64(n), e}
	})
	reg("fmt.Sscan", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, e, _ := x.sscan(fr, a[0], nil, variadic(a[1]))
		return Tuple{uint64(n), e}
	})
	reg("fmt.Fscanf", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		d, e := x.readAll(fr, a[0].(Iface))
		if e.T != nil {
			return Tuple{uint64(0), e}
		}
		n, e := scanF(x, fr, d, a[1], variadic(a[2]))
		if of := x.fileOf(a[0].(Iface).V); of != nil && !of.std {
			// the real scanner reads one rune past the token at most
			of.off = min(of.off, strLen(of.n.data))
		}
		return Tuple{uint64(n), e}
	})
	reg("fmt.Fscan", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		d, e := x.readAll(fr, a[0].(Iface))
		if e.T != nil {
			return Tuple{uint64(0), e}
		}
		n, e, _ := x.sscan(fr, d, nil, variadic(a[1]))
		return Tuple{uint64(n), e}
	})
	alive := func(x *X, pid Value) Value {
		for _, p := range []int{x.pid, otherPID} {
			if x.truth(x.equal(types.Typ[types.Int], pid, uint64(p))) {
				return nilErr
			}
		}
		return x.errnoIface(eSRCH)
	}
	reg("os.FindProcess", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.w.eng.typeByName("os", "Process")
		s := zero(t).(Struct)
		x.setField(s, t.Underlying().(*types.Struct), "Pid", a[0])
		p := new(Value)
		*p = s
		return Tuple{p, nilErr}
	})
	reg("(*os.Process).Signal", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.w.eng.typeByName("os", "Process")
		return alive(x, x.getField((*x.deref(a[0])).(Struct), t, "Pid"))
	})
	reg("(*os.Process).Release", ret(nilErr))
	reg("syscall.Kill", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return alive(x, a[0]) })
	reg("os/signal.Notify", zeroI)
	reg("os/signal.Stop", zeroI)
	regExec()
	regHash()
	regZip()
	regFast()
}

// ---------------------------------------------------------------- os/exec

func regExec() {
	reg("os/exec.Command", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.w.eng.typeByName("os/exec", "Cmd")
		p := new(Value)
		s := zero(t).(Struct)
		st := t.Underlying().(*types.Struct)
		*p = s
		x.setField(s, st, "Path", a[0])
		x.setField(s, st, "Args", append([]Value{a[0]}, variadic(a[1])...))
		return p
	})
	reg("os/exec.CommandContext", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return intrinsics["os/exec.Command"](x, fr, fn, a[1:])
	})
	reg("os/exec.LookPath", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{strCat("/usr/bin/", a[0]), nilErr}
	})
	reg("(*os/exec.Cmd).Run", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.execRun(a[0], false) })
	reg("(*os/exec.Cmd).Start", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.shadow[a[0]] = x.execRun(a[0], false)
		return nilErr
	})
	reg("(*os/exec.Cmd).Wait", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return x.shadow[a[0]].(Iface) })
	out := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{[]Value{}, x.execRun(a[0], false)}
	}
	reg("(*os/exec.Cmd).Output", out)
	reg("(*os/exec.Cmd).CombinedOutput", out)
}

const (
	xzMagic  = "\xfd7zXZ\x00"
	xzEnd    = "\x00YZ"
	zstMagic = "\x28\xb5\x2f\xfd"
	zstEnd   = "\xfdTS"
)

func (x *X) exitErr(code int) Iface {
	t := x.w.eng.typeByName("os/exec", "ExitError")
	p := new(Value)
	*p = zero(t)
	return Iface{T: x.w.eng.ptrTo(t), V: p}
}

func (x *X) execTorn(cmd Value) { x.execRun(cmd, true) }

// execRun models the compressor command lines ferryd issues: xz/unxz and
// zstd/unzstd working in place on named files.
func (x *X) execRun(cmd Value, torn bool) Iface {
	t := x.w.eng.typeByName("os/exec", "Cmd")
	s := (*x.deref(cmd)).(Struct)
	argv := x.getField(s, t, "Args").([]Value)
	tool, _ := argv[0].(string)
	tool = path.Base(tool)
	var files []Value
	keep, force, dec := false, false, false
	rm := false
	for i := 1; i < len(argv); i++ {
		a, ok := argv[i].(string)
		if !ok {
			files = append(files, argv[i])
			continue
		}
		switch {
		case a == "-T" || a == "--threads":
			i++
		case a == "-k" || a == "--keep":
			keep = true
		case a == "-f" || a == "--force":
			force = true
		case a == "-d" || a == "--decompress":
			dec = true
		case a == "--rm":
			rm = true
		case a == "-kf" || a == "-fk":
			keep, force = true, true
		case a == "-q" || a == "--quiet" || a == "--":
		case a == "-c" || a == "--stdout" || a == "-o" || a == "-t" || a == "-l":
			unsup("exec %s %s", tool, a)
		case strings.HasPrefix(a, "-T") || strings.HasPrefix(a, "--threads=") || (len(a) >= 2 && a[0] == '-' && a[1] >= '0' && a[1] <= '9') || a == "--ultra" || a == "--no-progress" || a == "-e" || a == "--extreme":
		case strings.HasPrefix(a, "-"):
			unsup("exec %s %s", tool, a)
		default:
			files = append(files, a)
		}
	}
	switch tool {
	case "unxz":
		tool, dec = "xz", true
	case "unzstd":
		tool, dec = "zstd", true
	case "xz", "zstd":
	default:
		unsup("exec %s", tool)
	}
	magic, end, suf := xzMagic, xzEnd, ".xz"
	if tool == "zstd" {
		magic, end, suf = zstMagic, zstEnd, ".zst"
		keep = !rm
	}
	if len(files) == 0 {
		unsup("exec %s without files", tool)
	}
	for _, f := range files {
		_, _, n, e := x.walk(f, false)
		if e != 0 || n == nil || n.dir {
			return x.exitErr(1)
		}
		if tool == "xz" && n.nlink > 1 && !force && !keep {
			return x.exitErr(2)
		}
		var out Value
		data := n.data
		if dec {
			L := strLen(f)
			if L <= len(suf) || !x.truth(x.strEq(strSlice(f, L-len(suf), L), suf)) {
				return x.exitErr(2)
			}
			out = strSlice(f, 0, L-len(suf))
			dl := strLen(data)
			if dl < len(magic)+len(end) || !x.truth(x.strEq(strSlice(data, 0, len(magic)), magic)) || !x.truth(x.strEq(strSlice(data, dl-len(end), dl), end)) {
				return x.exitErr(1)
			}
			data = strSlice(data, len(magic), dl-len(end))
		} else {
			L := strLen(f)
			if tool == "xz" && L >= len(suf) && x.truth(x.strEq(strSlice(f, L-len(suf), L), suf)) {
				return x.exitErr(2)
			}
			out = strCat(f, suf)
			data = strCatAll(magic, data, end)
		}
		_, _, on, e := x.walk(out, false)
		if e != 0 {
			return x.exitErr(1)
		}
		if on != nil {
			if !force || on.dir {
				return x.exitErr(1)
			}
			x.fsRemove(out)
		}
		if torn {
			x.fsWrite(out, strSlice(data, 0, min(3, strLen(data))))
			return nilErr
		}
		if e := x.fsWrite(out, data); e != 0 {
			return x.exitErr(1)
		}
		if !keep {
			x.fsRemove(f)
		}
	}
	return nilErr
}

// deepEqual is reflect.DeepEqual, deciding symbolic parts by branching.
func (x *X) deepEqual(t types.Type, a, b Value, seen map[[2]*Value]bool) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		pa, ok1 := a.(*Value)
		pb, ok2 := b.(*Value)
		if !ok1 || !ok2 {
			unsup("reflect.DeepEqual on %s", t)
		}
		if pa == pb || pa == nil || pb == nil {
			return pa == pb
		}
		if seen[[2]*Value{pa, pb}] {
			return true
		}
		seen[[2]*Value{pa, pb}] = true
		return x.deepEqual(u.Elem(), *pa, *pb, seen)
	case *types.Slice:
		sa, _ := a.([]Value)
		sb, _ := b.([]Value)
		if len(sa) != len(sb) || (sa == nil) != (sb == nil) {
			return false
		}
		for i := range sa {
			if !x.deepEqual(u.Elem(), sa[i], sb[i], seen) {
				return false
			}
		}
		return true
	case *types.Array:
		for i, v := range a.(Array) {
			if !x.deepEqual(u.Elem(), v, b.(Array)[i], seen) {
				return false
			}
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !x.deepEqual(u.Field(i).Type(), a.(Struct)[i], b.(Struct)[i], seen) {
				return false
			}
		}
		return true
	case *types.Map:
		ma, mb := a.(*Map), b.(*Map)
		if ma == mb || ma == nil || mb == nil {
			return ma == mb
		}
		na, nb := 0, 0
		for _, e := range mb.ents {
			if !e.dead {
				nb++
			}
		}
		for _, e := range ma.ents {
			if e.dead {
				continue
			}
			na++
			o := x.mapFind(mb, e.k)
			if o == nil || !x.deepEqual(u.Elem(), e.v, o.v, seen) {
				return false
			}
		}
		return na == nb
	case *types.Interface:
		ia, ib := a.(Iface), b.(Iface)
		if ia.T == nil || ib.T == nil {
			return ia.T == nil && ib.T == nil
		}
		return types.Identical(ia.T, ib.T) && x.deepEqual(ia.T, ia.V, ib.V, seen)
	case *types.Signature:
		return isNilFunc(a) && isNilFunc(b)
	}
	return x.truth(x.equal(t, a, b))
}

// ---------------------------------------------------------------- digests

func regHash() {
	reg("reflect.DeepEqual", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.deepEqual(fn.Signature.Params().At(0).Type(), a[0], a[1], map[[2]*Value]bool{})
	})
	type hashSt struct {
		n    int
		data Value
	}
	mk := func(pkg, tn, newName string, n int, ctor string) {
		method := "(*" + pkg + "." + tn + ")."
		newF := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			t := x.w.eng.typeByName(pkg, tn)
			p := new(Value)
			*p = zero(t)
			x.shadow[p] = &hashSt{n: n, data: ""}
			if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok {
				return p
			}
			return Iface{T: x.w.eng.ptrTo(t), V: p}
		}
		reg(newName, newF)
		if ctor != "" {
			reg(ctor, newF)
		}
		st := func(x *X, p Value) *hashSt {
			h, _ := x.shadow[p].(*hashSt)
			if h == nil {
				h = &hashSt{n: n, data: ""}
				x.shadow[p] = h
			}
			return h
		}
		reg(method+"Write", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			h := st(x, a[0])
			b := a[1].([]Value)
			h.data = strCat(h.data, mkStr(b))
			return Tuple{uint64(len(b)), nilErr}
		})
		reg(method+"Sum", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			pre, _ := a[1].([]Value)
			return append(pre[:len(pre):len(pre)], strBytes(x.digest(n, st(x, a[0]).data))...)
		})
		reg(method+"Reset", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			st(x, a[0]).data = ""
			return nil
		})
		reg(method+"Size", ret(uint64(n)))
		reg(method+"BlockSize", ret(uint64(64)))
	}
	mk("crypto/sha1", "digest", "crypto/sha1.New", 20, "")
	mk("crypto/internal/fips140/sha256", "Digest", "crypto/sha256.New", 32, "crypto/internal/fips140/sha256.New")
	sum := func(n int) Intrinsic {
		return func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			return Array(strBytes(x.digest(n, mkStr(a[0].([]Value)))))
		}
	}
	reg("crypto/sha1.Sum", sum(20))
	reg("crypto/sha256.Sum256", sum(32))
	reg("encoding/hex.EncodeToString", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := mkStr(a[0].([]Value))
		if c, ok := s.(string); ok {
			return hex.EncodeToString([]byte(c))
		}
		return x.fmtStr("%x", 'x', s)
	})
}

type digestEnt struct {
	data Value
	sum  string
}

// digest is the real digest of concrete content; symbolic content is assumed
// collision-free: equal contents share a digest, different ones do not.
func (x *X) digest(n int, data Value) Value {
	tab, _ := x.shadow["digests"].([]digestEnt)
	cs, conc := data.(string)
	for _, e := range tab {
		if len(e.sum) != n || strLen(e.data) != strLen(data) {
			continue
		}
		if ec, ok := e.data.(string); ok && conc {
			if ec == cs {
				return e.sum
			}
			continue
		}
		if x.truth(x.strEq(e.data, data)) {
			return e.sum
		}
	}
	if conc {
		var sum string
		if n == 20 {
			h := sha1.Sum([]byte(cs))
			sum = string(h[:])
		} else {
			h := sha256.Sum256([]byte(cs))
			sum = string(h[:])
		}
		x.shadow["digests"] = append(tab, digestEnt{data, sum})
		return sum
	}
	// not equal to any earlier symbolic content; concrete contents of the same
	// length are distinguished by the collision-free assumption
	k := symKey(data.(*SymStr))
	var sum string
	if n == 20 {
		h := sha1.Sum([]byte("sym" + k))
		sum = string(h[:])
	} else {
		h := sha256.Sum256([]byte("sym" + k))
		sum = string(h[:])
	}
	x.shadow["digests"] = append(tab, digestEnt{data, sum})
	return sum
}

// ---------------------------------------------------------------- archive/zip, archive/tar

type arcEntry struct {
	hdr  Struct // copy of the FileHeader / tar Header
	name Value
	data Value
}
type arcTok struct{ ents []*arcEntry }

const (
	zipTag = "PK\x03\x04ZIP#"
	zipEnd = "PK\x05\x06"
	tarTag = "ustarTAR#"
	tarEnd = "ustarEND#########"
)

type zipWriter struct {
	w      Iface
	ents   []*arcEntry
	closed bool
}
type zipFileW struct {
	zw  *zipWriter
	ent *arcEntry
}

func valKey(v Value) string {
	switch s := v.(type) {
	case string:
		return "s" + strconv.Itoa(len(s)) + ":" + s
	case *SymStr:
		return "y" + symKey(s)
	}
	return show(v)
}

func regZip() {
	const pz = "archive/zip."
	zt := func(x *X, n string) types.Type { return x.w.eng.typeByName("archive/zip", n) }
	errOf := func(x *X, n string) Iface {
		return x.load(x.globalAddr(x.w.eng.pkg("archive/zip").Var(n))).(Iface)
	}
	parse := func(x *X, data Value) *arcTok {
		s, ok := data.(string)
		if !ok {
			return nil
		}
		if !strings.HasPrefix(s, zipTag) || len(s) != len(zipTag)+10+len(zipEnd) || !strings.HasSuffix(s, zipEnd) {
			return nil
		}
		id, err := strconv.Atoi(s[len(zipTag) : len(zipTag)+10])
		if err != nil || id >= len(x.reg.toks) {
			return nil
		}
		t, _ := x.reg.toks[id].(*arcTok)
		return t
	}
	fill := func(x *X, rd Struct, tok *arcTok) {
		rt := zt(x, "Reader")
		ft := zt(x, "File")
		var files []Value
		for _, e := range tok.ents {
			f := zero(ft).(Struct)
			fst := ft.Underlying().(*types.Struct)
			x.setField(f, fst, "FileHeader", copyVal(e.hdr))
			p := new(Value)
			*p = f
			x.shadow[p] = e
			files = append(files, p)
		}
		x.setField(rd, rt.Underlying().(*types.Struct), "File", files)
	}
	reg(pz+"OpenReader", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		d, e := x.fsRead(a[0])
		if e != 0 {
			op := "open"
			if e == eISDIR {
				op = "read"
			}
			return Tuple{(*Value)(nil), x.pathErr(op, a[0], e)}
		}
		tok := parse(x, d)
		if tok == nil {
			return Tuple{(*Value)(nil), errOf(x, "ErrFormat")}
		}
		t := zt(x, "ReadCloser")
		p := new(Value)
		s := zero(t).(Struct)
		*p = s
		for i := 0; i < t.Underlying().(*types.Struct).NumFields(); i++ {
			if t.Underlying().(*types.Struct).Field(i).Name() == "Reader" {
				fill(x, s[i].(Struct), tok)
			}
		}
		return Tuple{p, nilErr}
	})
	reg(pz+"NewReader", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := a[0].(Iface)
		n := x.concInt(a[1])
		buf := make([]Value, n)
		for i := range buf {
			buf[i] = uint64(0)
		}
		tp := x.callMethod(fr, r, "ReadAt", buf, uint64(0)).(Tuple)
		tok := parse(x, mkStr(buf[:x.concInt(tp[0])]))
		if tok == nil {
			return Tuple{(*Value)(nil), errOf(x, "ErrFormat")}
		}
		p := new(Value)
		s := zero(zt(x, "Reader")).(Struct)
		*p = s
		fill(x, s, tok)
		return Tuple{p, nilErr}
	})
	reg("(*archive/zip.ReadCloser).Close", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.deref(a[0])
		return nilErr
	})
	reg("(*archive/zip.File).Open", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		e := x.shadow[x.deref(a[0])].(*arcEntry)
		rd := x.call(fr, x.w.eng.funcByName("bytes", "NewReader"), []Value{strBytes(e.data)}, nil)
		rc := x.call(fr, x.w.eng.funcByName("io", "NopCloser"), []Value{Iface{T: x.w.eng.ptrTo(x.w.eng.typeByName("bytes", "Reader")), V: rd}}, nil)
		return Tuple{rc, nilErr}
	})
	reg(pz+"NewWriter", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = zero(zt(x, "Writer"))
		x.shadow[p] = &zipWriter{w: a[0].(Iface)}
		return p
	})
	create := func(x *X, p Value, hdr Struct, name Value) Value {
		zw := x.shadow[p].(*zipWriter)
		if zw.closed {
			return Tuple{Iface{}, x.newError("zip: write to closed writer")}
		}
		e := &arcEntry{hdr: hdr, name: name, data: ""}
		zw.ents = append(zw.ents, e)
		t := zt(x, "fileWriter")
		q := new(Value)
		*q = zero(t)
		x.shadow[q] = &zipFileW{zw, e}
		return Tuple{Iface{T: x.w.eng.ptrTo(t), V: q}, nilErr}
	}
	hdrName := func(x *X, h Struct) Value { return x.getField(h, zt(x, "FileHeader"), "Name") }
	reg("(*archive/zip.Writer).Create", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		h := zero(zt(x, "FileHeader")).(Struct)
		x.setField(h, zt(x, "FileHeader").Underlying().(*types.Struct), "Name", a[1])
		x.setField(h, zt(x, "FileHeader").Underlying().(*types.Struct), "Method", uint64(8))
		return create(x, a[0], h, a[1])
	})
	reg("(*archive/zip.Writer).CreateHeader", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		h := copyVal(*x.deref(a[1])).(Struct)
		return create(x, a[0], h, hdrName(x, h))
	})
	reg("(*archive/zip.fileWriter).Write", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := x.shadow[a[0]].(*zipFileW)
		if f.zw.closed || f.zw.ents[len(f.zw.ents)-1] != f.ent {
			return Tuple{uint64(0), x.newError("zip: write to closed file")}
		}
		b := a[1].([]Value)
		f.ent.data = strCat(f.ent.data, mkStr(b))
		return Tuple{uint64(len(b)), nilErr}
	})
	reg("(*archive/zip.Writer).Flush", ret(nilErr))
	reg("(*archive/zip.Writer).SetComment", ret(nilErr))
	reg("(*archive/zip.Writer).Copy", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		e := x.shadow[x.deref(a[1])].(*arcEntry)
		zw := x.shadow[a[0]].(*zipWriter)
		c := *e
		zw.ents = append(zw.ents, &c)
		return nilErr
	})
	reg("(*archive/zip.Writer).Close", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		zw := x.shadow[a[0]].(*zipWriter)
		if zw.closed {
			return x.newError("zip: writer closed twice")
		}
		zw.closed = true
		key := "zip"
		for _, e := range zw.ents {
			key += valKey(e.name) + "=" + valKey(e.data) + ";"
		}
		id := x.reg.add(key, &arcTok{zw.ents})
		r := x.callMethod(fr, zw.w, "Write", strBytes(fmt.Sprintf("%s%010d%s", zipTag, id, zipEnd))).(Tuple)
		return r[1]
	})
	reg(pz+"FileInfoHeader", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		fi := a[0].(Iface)
		h := zero(zt(x, "FileHeader")).(Struct)
		st := zt(x, "FileHeader").Underlying().(*types.Struct)
		x.setField(h, st, "Name", x.callMethod(fr, fi, "Name"))
		x.setField(h, st, "UncompressedSize64", x.callMethod(fr, fi, "Size"))
		p := new(Value)
		*p = h
		return Tuple{p, nilErr}
	})

	// ---- tar
	tt := func(x *X, n string) types.Type { return x.w.eng.typeByName("archive/tar", n) }
	type tarW struct {
		w      Iface
		cur    *arcEntry
		left   int
		out    Value
		closed bool
	}
	type tarR struct {
		ents []*arcEntry
		err  Iface
		i    int
		off  int
		read bool
		r    Iface
	}
	terr := func(x *X, n string) Iface {
		return x.load(x.globalAddr(x.w.eng.pkg("archive/tar").Var(n))).(Iface)
	}
	reg("archive/tar.NewWriter", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = zero(tt(x, "Writer"))
		x.shadow[p] = &tarW{w: a[0].(Iface)}
		return p
	})
	emit := func(x *X, fr *Frame, t *tarW) Iface {
		if t.cur == nil {
			return nilErr
		}
		if t.left > 0 {
			return x.newError(fmt.Sprintf("archive/tar: missed writing %d bytes", t.left))
		}
		e := t.cur
		t.cur = nil
		id := x.reg.add("tar"+valKey(e.name)+"="+valKey(e.data)+show(e.hdr), &arcTok{[]*arcEntry{e}})
		r := x.callMethod(fr, t.w, "Write", strBytes(fmt.Sprintf("%s%08d", tarTag, id))).(Tuple)
		return r[1].(Iface)
	}
	reg("(*archive/tar.Writer).WriteHeader", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.shadow[a[0]].(*tarW)
		if t.closed {
			return terr(x, "ErrWriteAfterClose")
		}
		if e := emit(x, fr, t); e.T != nil {
			return e
		}
		h := copyVal(*x.deref(a[1])).(Struct)
		t.cur = &arcEntry{hdr: h, name: x.getField(h, tt(x, "Header"), "Name"), data: ""}
		t.left = x.concInt(x.getField(h, tt(x, "Header"), "Size"))
		if tf, ok := x.getField(h, tt(x, "Header"), "Typeflag").(uint64); ok && tf == 0 {
			nm := t.cur.name
			f := uint64('0')
			if L := strLen(nm); L > 0 && x.truth(x.strEq(strSlice(nm, L-1, L), "/")) {
				f = '5'
			}
			x.setField(h, tt(x, "Header").Underlying().(*types.Struct), "Typeflag", f)
		}
		return nilErr
	})
	reg("(*archive/tar.Writer).Write", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.shadow[a[0]].(*tarW)
		b := a[1].([]Value)
		if t.closed {
			return Tuple{uint64(0), terr(x, "ErrWriteAfterClose")}
		}
		if t.cur == nil {
			return Tuple{uint64(0), terr(x, "ErrWriteTooLong")}
		}
		n := min(len(b), t.left)
		t.cur.data = strCat(t.cur.data, mkStr(b[:n]))
		t.left -= n
		if n < len(b) {
			return Tuple{uint64(n), terr(x, "ErrWriteTooLong")}
		}
		return Tuple{uint64(n), nilErr}
	})
	reg("(*archive/tar.Writer).Flush", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return emit(x, fr, x.shadow[a[0]].(*tarW))
	})
	reg("(*archive/tar.Writer).Close", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.shadow[a[0]].(*tarW)
		if t.closed {
			return nilErr
		}
		if e := emit(x, fr, t); e.T != nil {
			return e
		}
		t.closed = true
		r := x.callMethod(fr, t.w, "Write", strBytes(tarEnd)).(Tuple)
		return r[1]
	})
	reg("archive/tar.NewReader", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = zero(tt(x, "Reader"))
		x.shadow[p] = &tarR{r: a[0].(Iface), i: -1}
		return p
	})
	reg("(*archive/tar.Reader).Next", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.shadow[a[0]].(*tarR)
		if !t.read {
			t.read = true
			d, e := x.readAll(fr, t.r)
			t.err = x.eofErr()
			if e.T != nil {
				t.err = e
			} else if s, ok := d.(string); ok {
				for len(s) > 0 {
					if strings.HasPrefix(s, tarEnd) {
						break
					}
					if len(s) < len(tarTag)+8 || !strings.HasPrefix(s, tarTag) {
						t.err = terr(x, "ErrHeader")
						if len(s) < len(tarTag)+8 && strings.HasPrefix(tarTag, s[:min(len(s), len(tarTag))]) {
							t.err = x.load(x.globalAddr(x.w.eng.pkg("io").Var("ErrUnexpectedEOF"))).(Iface)
						}
						break
					}
					id, _ := strconv.Atoi(s[len(tarTag) : len(tarTag)+8])
					t.ents = append(t.ents, x.reg.toks[id].(*arcTok).ents[0])
					s = s[len(tarTag)+8:]
				}
			} else {
				t.err = terr(x, "ErrHeader")
			}
		}
		t.i++
		t.off = 0
		if t.i >= len(t.ents) {
			return Tuple{(*Value)(nil), t.err}
		}
		p := new(Value)
		*p = copyVal(t.ents[t.i].hdr)
		return Tuple{p, nilErr}
	})
	reg("(*archive/tar.Reader).Read", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := x.shadow[a[0]].(*tarR)
		b := a[1].([]Value)
		if t.i < 0 || t.i >= len(t.ents) {
			return Tuple{uint64(0), x.eofErr()}
		}
		d := t.ents[t.i].data
		L := strLen(d)
		if t.off >= L {
			return Tuple{uint64(0), x.eofErr()}
		}
		n := min(len(b), L-t.off)
		for i := 0; i < n; i++ {
			b[i] = strByte(d, t.off+i)
		}
		t.off += n
		return Tuple{uint64(n), nilErr}
	})
}

// ---------------------------------------------------------------- concrete fast paths

func allConc(a []Value) bool {
	for _, v := range a {
		switch v.(type) {
		case string, uint64:
		default:
			return false
		}
	}
	return true
}

func strList(ss []string) Value {
	if ss == nil {
		return []Value(nil)
	}
	out := make([]Value, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	return out
}

func concList(v Value) ([]string, bool) {
	s, ok := v.([]Value)
	if !ok {
		return nil, false
	}
	out := make([]string, len(s))
	for i, e := range s {
		c, ok := e.(string)
		if !ok {
			return nil, false
		}
		out[i] = c
	}
	return out, true
}

func regFast() {
	fast := func(name string, f func(a []Value) Value) {
		if _, dup := intrinsics[name]; dup {
			panic("dup " + name)
		}
		reg(name, func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			if allConc(a) {
				return f(a)
			}
			return x.callBody(fr, fn, a)
		})
	}
	S := func(v Value) string { return v.(string) }
	I := func(v Value) int { return int(int64(v.(uint64))) }
	i := func(n int) Value { return uint64(int64(n)) }
	s1 := func(name string, f func(string) string) { fast(name, func(a []Value) Value { return f(S(a[0])) }) }
	s2 := func(name string, f func(a, b string) string) {
		fast(name, func(a []Value) Value { return f(S(a[0]), S(a[1])) })
	}
	for _, p := range []string{"path.", "path/filepath.", "internal/filepathlite."} {
		s1(p+"Clean", path.Clean)
		s1(p+"Base", path.Base)
		s1(p+"Dir", path.Dir)
		s1(p+"Ext", path.Ext)
		fast(p+"IsAbs", func(a []Value) Value { return path.IsAbs(S(a[0])) })
	}
	join := func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if ss, ok := concList(a[0]); ok {
			return filepath.Join(ss...)
		}
		return x.callBody(fr, fn, a)
	}
	reg("path/filepath.Join", join)
	reg("path.Join", join)
	s1("strings.TrimSpace", strings.TrimSpace)
	s1("strings.ToLower", strings.ToLower)
	s1("strings.ToUpper", strings.ToUpper)
	s2("strings.TrimSuffix", strings.TrimSuffix)
	s2("strings.TrimPrefix", strings.TrimPrefix)
	s2("strings.Trim", strings.Trim)
	s2("strings.TrimLeft", strings.TrimLeft)
	s2("strings.TrimRight", strings.TrimRight)
	fast("strings.Contains", func(a []Value) Value { return strings.Contains(S(a[0]), S(a[1])) })
	fast("strings.ContainsRune", func(a []Value) Value { return strings.ContainsRune(S(a[0]), rune(sext(a[1].(uint64), 32))) })
	fast("strings.ContainsAny", func(a []Value) Value { return strings.ContainsAny(S(a[0]), S(a[1])) })
	fast("strings.EqualFold", func(a []Value) Value { return strings.EqualFold(S(a[0]), S(a[1])) })
	fast("strings.LastIndex", func(a []Value) Value { return i(strings.LastIndex(S(a[0]), S(a[1]))) })
	fast("strings.Count", func(a []Value) Value { return i(strings.Count(S(a[0]), S(a[1]))) })
	fast("strings.Split", func(a []Value) Value { return strList(strings.Split(S(a[0]), S(a[1]))) })
	fast("strings.SplitN", func(a []Value) Value { return strList(strings.SplitN(S(a[0]), S(a[1]), I(a[2]))) })
	fast("strings.Fields", func(a []Value) Value { return strList(strings.Fields(S(a[0]))) })
	fast("strings.Repeat", func(a []Value) Value {
		if I(a[1]) < 0 {
			unsup("strings.Repeat negative")
		}
		return strings.Repeat(S(a[0]), I(a[1]))
	})
	fast("strings.Replace", func(a []Value) Value { return strings.Replace(S(a[0]), S(a[1]), S(a[2]), I(a[3])) })
	fast("strings.ReplaceAll", func(a []Value) Value { return strings.ReplaceAll(S(a[0]), S(a[1]), S(a[2])) })
	reg("strings.Join", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if ss, ok := concList(a[0]); ok {
			if sep, ok := a[1].(string); ok {
				return strings.Join(ss, sep)
			}
		}
		var r Value = ""
		for k, e := range a[0].([]Value) {
			if k > 0 {
				r = strCat(r, a[1])
			}
			r = strCat(r, e)
		}
		return r
	})
	s1("strconv.Quote", strconv.Quote)
}
