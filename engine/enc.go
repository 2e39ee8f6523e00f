package main

// Models of the reflective encoders: gob, xml, json, toml. Encoded values are
// tokens into a registry of typed trees, so symbolic fields survive a round
// trip; concrete texts are parsed for real.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"go/types"
	"io"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type registry struct {
	toks   []any
	intern map[string]int
}

func (r *registry) add(key string, v any) int {
	if r.intern == nil {
		r.intern = map[string]int{}
	}
	if key != "" {
		if i, ok := r.intern[key]; ok {
			return i
		}
	}
	r.toks = append(r.toks, v)
	i := len(r.toks) - 1
	if key != "" {
		r.intern[key] = i
	}
	return i
}

// ---------------------------------------------------------------- gob

type gobVal struct {
	kind  byte // i int, u uint, b bool, s string/bytes, f float, L list, S struct, M map, T opaque (self-encoding)
	v     Value
	list  []gobVal
	names []string
	mk    []gobVal
	typ   types.Type
}

type gobMsg struct {
	enc      int
	withType bool
	tname    string
	val      gobVal
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func selfEnc(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// gobEnc returns the encoded value; present=false when gob would omit the field.
func (x *X) gobEnc(t types.Type, v Value, top bool) (gobVal, bool) {
	if selfEnc(t) {
		return gobVal{kind: 'T', v: copyVal(v), typ: t}, true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			if top {
				panic(targetPanic{x.newError("gob: cannot encode nil pointer of type " + t.String())})
			}
			return gobVal{}, false
		}
		return x.gobEnc(u.Elem(), *p, top)
	case *types.Basic:
		var g gobVal
		switch {
		case u.Info()&types.IsBoolean != 0:
			g = gobVal{kind: 'b', v: v}
			if v == false {
				return g, top
			}
		case u.Info()&types.IsInteger != 0:
			w := widthOf(t)
			k := byte('u')
			if isSigned(t) {
				k = 'i'
			}
			switch c := v.(type) {
			case uint64:
				if k == 'i' {
					v = uint64(sext(c, w))
				}
			case *Term:
				if k == 'i' {
					v = fromTerm(x.w.pool.SExt(c, 64))
				} else {
					v = fromTerm(x.w.pool.ZExt(c, 64))
				}
			}
			g = gobVal{kind: k, v: v}
			if v == uint64(0) {
				return g, top
			}
		case u.Info()&types.IsString != 0:
			g = gobVal{kind: 's', v: v}
			if strLen(v) == 0 {
				return g, top
			}
		case u.Info()&types.IsFloat != 0:
			g = gobVal{kind: 'f', v: v}
			if v == float64(0) {
				return g, top
			}
		default:
			unsup("gob of %s", t)
		}
		return g, true
	case *types.Slice:
		s := v.([]Value)
		if isBytes(t) {
			return gobVal{kind: 's', v: mkStr(s)}, len(s) > 0 || top
		}
		g := gobVal{kind: 'L'}
		for _, e := range s {
			ev, _ := x.gobEnc(u.Elem(), e, true)
			g.list = append(g.list, ev)
		}
		return g, len(s) > 0 || top
	case *types.Array:
		g := gobVal{kind: 'L'}
		for _, e := range v.(Array) {
			ev, _ := x.gobEnc(u.Elem(), e, true)
			g.list = append(g.list, ev)
		}
		return g, true
	case *types.Map:
		m := v.(*Map)
		g := gobVal{kind: 'M'}
		if m != nil {
			for _, e := range m.ents {
				kv, _ := x.gobEnc(u.Key(), e.k, true)
				vv, _ := x.gobEnc(u.Elem(), e.v, true)
				g.mk = append(g.mk, kv)
				g.list = append(g.list, vv)
			}
		}
		return g, m != nil || top
	case *types.Struct:
		g := gobVal{kind: 'S'}
		s := v.(Struct)
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() || gobIgnored(f.Type()) {
				continue
			}
			n++
			if fv, ok := x.gobEnc(f.Type(), s[i], false); ok {
				g.names = append(g.names, f.Name())
				g.list = append(g.list, fv)
			}
		}
		if n == 0 && top {
			panic(gobError{"gob: type " + t.String() + " has no exported fields"})
		}
		return g, true
	}
	unsup("gob of %s", t)
	return gobVal{}, false
}

type gobError struct{ msg string }

func gobIgnored(t types.Type) bool {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	switch t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return true
	}
	return false
}

// gobDec stores g into the slot p of type t.
func (x *X) gobDec(g gobVal, t types.Type, p *Value) error {
	bad := func() error { return fmt.Errorf("gob: wrong type for received field (%s)", t) }
	if selfEnc(t) {
		if g.kind != 'T' {
			return bad()
		}
		storeTo(p, copyVal(g.v))
		return nil
	}
	if g.kind == 'T' {
		return bad()
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(u.Elem())
			*p = q
		}
		return x.gobDec(g, u.Elem(), q)
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if g.kind != 'b' {
				return bad()
			}
			*p = g.v
		case u.Info()&types.IsInteger != 0:
			if g.kind != 'i' && g.kind != 'u' || (g.kind == 'i') != isSigned(t) {
				return bad()
			}
			w := widthOf(t)
			switch c := g.v.(type) {
			case uint64:
				if g.kind == 'i' && sext(c&mask(w), w) != int64(c) || g.kind == 'u' && c&mask(w) != c {
					return fmt.Errorf("value for %q out of range", t)
				}
				*p = c & mask(w)
			case *Term:
				var r, back *Term
				r = x.w.pool.Extract(c, w-1, 0)
				if g.kind == 'i' {
					back = x.w.pool.SExt(r, 64)
				} else {
					back = x.w.pool.ZExt(r, 64)
				}
				if w < 64 && !x.truth(fromTerm(x.w.pool.Eq(back, c))) {
					return fmt.Errorf("value for %q out of range", t)
				}
				*p = fromTerm(r)
			}
		case u.Info()&types.IsString != 0:
			if g.kind != 's' {
				return bad()
			}
			*p = g.v
		case u.Info()&types.IsFloat != 0:
			if g.kind != 'f' {
				return bad()
			}
			*p = g.v
		}
		return nil
	case *types.Slice:
		if isBytes(t) {
			if g.kind != 's' {
				return bad()
			}
			*p = strBytes(g.v)
			return nil
		}
		if g.kind != 'L' {
			return bad()
		}
		old, _ := (*p).([]Value)
		var s []Value
		if cap(old) >= len(g.list) {
			s = old[:len(g.list)] // gob reuses the target's storage
		} else {
			s = make([]Value, len(g.list))
			for i := range s {
				s[i] = zero(u.Elem())
			}
			for i := range old {
				s[i] = copyVal(old[i])
			}
		}
		for i := range g.list {
			if err := x.gobDec(g.list[i], u.Elem(), &s[i]); err != nil {
				return err
			}
		}
		*p = s
		return nil
	case *types.Map:
		if g.kind != 'M' {
			return bad()
		}
		m, _ := (*p).(*Map)
		if m == nil {
			m = newMap(u.Key())
			*p = m
		}
		for i := range g.list {
			kv := zero(u.Key())
			vv := zero(u.Elem())
			if err := x.gobDec(g.mk[i], u.Key(), &kv); err != nil {
				return err
			}
			if err := x.gobDec(g.list[i], u.Elem(), &vv); err != nil {
				return err
			}
			x.mapSet(m, kv, vv)
		}
		return nil
	case *types.Struct:
		if g.kind != 'S' {
			return bad()
		}
		s := (*p).(Struct)
		matched := 0
		for j, n := range g.names {
			for i := 0; i < u.NumFields(); i++ {
				if f := u.Field(i); f.Exported() && f.Name() == n {
					matched++
					// a symbolic zero is not transmitted: the target keeps its value
					if tm, ok := g.list[j].v.(*Term); ok && (g.list[j].kind == 'i' || g.list[j].kind == 'u' || g.list[j].kind == 'b') {
						keep := false
						switch old := s[i].(type) {
						case uint64:
							keep = old != 0
						case bool:
							keep = old
						case *Term:
							keep = true
						}
						if keep && x.truth(fromTerm(x.w.pool.Eq(tm, x.w.pool.Const(tm.w, 0)))) {
							continue
						}
					}
					if err := x.gobDec(g.list[j], f.Type(), &s[i]); err != nil {
						return err
					}
				}
			}
		}
		if matched == 0 && len(g.names) > 0 {
			return fmt.Errorf("gob: type mismatch: no fields matched compiling decoder for %s", t)
		}
		return nil
	}
	unsup("gob decode into %s", t)
	return nil
}

const gobLen = 28

type gobEncState struct {
	w    Iface
	id   int
	sent map[string]bool
}
type gobDecState struct {
	r    Iface
	seen map[string]bool // "enc/type"
}

func init() {
	reg("encoding/gob.NewEncoder", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = Struct{}
		x.ntemp++
		x.shadow[p] = &gobEncState{w: a[0].(Iface), id: x.ntemp, sent: map[string]bool{}}
		return p
	})
	reg("encoding/gob.NewDecoder", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = Struct{}
		x.shadow[p] = &gobDecState{r: a[0].(Iface), seen: map[string]bool{}}
		return p
	})
	reg("encoding/gob.Register", zeroI)
	reg("encoding/gob.RegisterName", zeroI)
	reg("(*encoding/gob.Encoder).Encode", func(x *X, fr *Frame, fn *ssa.Function, a []Value) (res Value) {
		st := x.shadow[a[0]].(*gobEncState)
		e := a[1].(Iface)
		if e.T == nil {
			panic(targetPanic{x.newError("gob: cannot encode nil pointer of type <nil>")})
		}
		defer func() {
			if r := recover(); r != nil {
				if ge, ok := r.(gobError); ok {
					res = x.newError(ge.msg)
					return
				}
				panic(r)
			}
		}()
		g, _ := x.gobEnc(e.T, e.V, true)
		bt := e.T
		for {
			p, ok := bt.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			bt = p.Elem()
		}
		tn := bt.String()
		msg := gobMsg{enc: st.id, withType: !st.sent[tn], tname: tn, val: g}
		st.sent[tn] = true
		id := x.reg.add("", &msg)
		tok := fmt.Sprintf("\x07GOBTOK%021d", id)
		r := x.callMethod(fr, st.w, "Write", strBytes(tok)).(Tuple)
		return r[1]
	})
	reg("(*encoding/gob.Decoder).Decode", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := x.shadow[a[0]].(*gobDecState)
		e := a[1].(Iface)
		buf := make([]Value, gobLen)
		for i := range buf {
			buf[i] = uint64(0)
		}
		eof := x.load(x.globalAddr(x.w.eng.pkg("io").Var("EOF"))).(Iface)
		got := 0
		for got < gobLen {
			r := x.callMethod(fr, st.r, "Read", buf[got:]).(Tuple)
			n := x.concInt(r[0])
			got += n
			if err := r[1].(Iface); err.T != nil && got < gobLen {
				if got == 0 {
					return err
				}
				return x.newError("unexpected EOF")
			}
			if n == 0 && r[1].(Iface).T == nil {
				break
			}
		}
		_ = eof
		s, ok := mkStr(buf).(string)
		if !ok || !strings.HasPrefix(s, "\x07GOBTOK") {
			return x.newError("gob: bad data")
		}
		id, err := strconv.Atoi(s[7:])
		if err != nil || id >= len(x.reg.toks) {
			return x.newError("gob: bad data")
		}
		msg, ok := x.reg.toks[id].(*gobMsg)
		if !ok {
			return x.newError("gob: bad data")
		}
		k := fmt.Sprintf("%d/%s", msg.enc, msg.tname)
		if msg.withType {
			st.seen[k] = true
		} else if !st.seen[k] {
			return x.newError("gob: unknown type id or corrupted data")
		}
		if e.T == nil {
			return nilErr
		}
		pt, ok := e.T.Underlying().(*types.Pointer)
		if !ok {
			return x.newError("gob: attempt to decode into a non-pointer")
		}
		p := e.V.(*Value)
		if p == nil {
			return x.newError("gob: DecodeValue of unassignable value")
		}
		if derr := x.gobDec(msg.val, pt.Elem(), p); derr != nil {
			return x.newError(derr.Error())
		}
		return nilErr
	})
}

// ---------------------------------------------------------------- xml

type Node struct {
	name, space string
	attrs       []nodeAttr
	text        Value // string, *SymStr
	ival        Value // integer leaf (signed 64), nil if text
	kids        []*Node
	txtMark     bool
	cdata       bool // text is written as a CDATA section
}

type nodeAttr struct {
	name, space string
	v           Value // string
	ival        Value
}

func (x *X) nodeKey(n *Node) string {
	var sb strings.Builder
	var rec func(n *Node)
	val := func(v Value) {
		switch v := v.(type) {
		case nil:
			sb.WriteString("-")
		case string:
			fmt.Fprintf(&sb, "%q", v)
		case *SymStr:
			sb.WriteString(symKey(v))
		case uint64:
			fmt.Fprintf(&sb, "#%d", v)
		case *Term:
			fmt.Fprintf(&sb, "t%d", v.id)
		case bool:
			fmt.Fprintf(&sb, "%v", v)
		}
	}
	rec = func(n *Node) {
		fmt.Fprintf(&sb, "(%s|", n.name)
		for _, a := range n.attrs {
			sb.WriteString(a.space + a.name + "=")
			val(a.v)
			val(a.ival)
			sb.WriteString(",")
		}
		val(n.text)
		val(n.ival)
		for _, k := range n.kids {
			rec(k)
		}
		sb.WriteString(")")
	}
	rec(n)
	return sb.String()
}

func (x *X) nodeToken(n *Node) string {
	id := x.reg.add("xml"+x.nodeKey(n), n)
	return fmt.Sprintf("<VTOK id=\"%08d\"></VTOK>", id)
}

// nodeWide reports whether the texts of a node are all concrete and some of them
// has characters outside ASCII: it is written as the markup it really is, as
// others look at its characters.
func nodeWide(n *Node) bool {
	wide := false
	var rec func(n *Node) bool
	leaf := func(v, i Value) bool {
		if i != nil {
			return false
		}
		s, ok := v.(string)
		if !ok && v != nil {
			return false
		}
		wide = wide || strings.ContainsFunc(s, func(r rune) bool { return r >= 0x80 })
		return true
	}
	rec = func(n *Node) bool {
		if !leaf(n.text, n.ival) {
			return false
		}
		for _, a := range n.attrs {
			if !leaf(a.v, a.ival) {
				return false
			}
		}
		for _, k := range n.kids {
			if !rec(k) {
				return false
			}
		}
		return true
	}
	return rec(n) && wide
}

// xmlRender is the markup of a node, as encoding/xml writes it.
func (x *X) xmlRender(n *Node) Value {
	var out Value = "<" + n.name
	for _, a := range n.attrs {
		nm := a.name
		switch a.space {
		case "":
		case "http://www.w3.org/XML/1998/namespace":
			nm = "xml:" + nm
		default:
			unsup("xml attribute name space")
		}
		out = strCatAll(out, " "+nm+"=\"", x.xmlText(a.v, a.ival, false), "\"")
	}
	out = strCatAll(out, ">", x.xmlText(n.text, n.ival, n.cdata))
	for _, k := range n.kids {
		out = strCatAll(out, "\n", x.xmlRender(k))
	}
	if len(n.kids) > 0 {
		out = strCatAll(out, "\n")
	}
	return strCatAll(out, "</"+n.name+">")
}

func (x *X) xmlText(v, iv Value, cdata bool) Value {
	if iv != nil {
		return x.itoa(iv, 64, true)
	}
	if v == nil || strLen(v) == 0 {
		return ""
	}
	if s, ok := v.(string); ok {
		if cdata {
			return "<![CDATA[" + strings.ReplaceAll(s, "]]>", "]]]]><![CDATA[>") + "]]>"
		}
		var b bytes.Buffer
		xml.EscapeText(&b, []byte(s))
		return b.String()
	}
	p := x.w.pool
	var out []Value
	for _, c := range strBytes(v) {
		if t, ok := c.(*Term); ok {
			if !x.truth(fromTerm(p.Cmp(OpUle, p.Const(8, 0x80), t))) && x.truth(fromTerm(p.Not(x.plainByte(t)))) {
				unsup("xml encode of symbolic markup")
			}
			out = append(out, c)
			continue
		}
		if cdata {
			if c.(uint64) == '>' {
				unsup("symbolic CDATA with markup")
			}
			out = append(out, c)
			continue
		}
		if c.(uint64) >= 0x80 {
			out = append(out, c)
			continue
		}
		var b bytes.Buffer
		xml.EscapeText(&b, []byte{byte(c.(uint64))})
		out = append(out, strBytes(b.String())...)
	}
	if cdata {
		return strCatAll("<![CDATA[", mkStr(out), "]]>")
	}
	return mkStr(out)
}

// plainByte is the condition that a byte is ordinary text.
func (x *X) plainByte(t *Term) *Term {
	p := x.w.pool
	rng := func(lo, hi byte) *Term {
		return p.And(p.Cmp(OpUle, p.Const(8, uint64(lo)), t), p.Cmp(OpUle, t, p.Const(8, uint64(hi))))
	}
	return p.Or(rng('0', '9'), rng('A', 'Z'), rng('a', 'z'), rng('-', '/'), p.Eq(t, p.Const(8, ' ')), p.Eq(t, p.Const(8, '_')), p.Eq(t, p.Const(8, '+')))
}

// parseXML parses a concrete text (with tokens) up to the end of its first
// element; it returns the tree and the number of bytes consumed.
func (x *X) parseXML(s string) (*Node, int, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	var stack []*Node
	for {
		t, err := d.Token()
		if err != nil {
			if err == io.EOF && len(stack) == 0 {
				return nil, int(d.InputOffset()), io.EOF
			}
			return nil, int(d.InputOffset()), err
		}
		switch t := t.(type) {
		case xml.StartElement:
			n := &Node{name: t.Name.Local, space: t.Name.Space, text: ""}
			for _, a := range t.Attr {
				n.attrs = append(n.attrs, nodeAttr{name: a.Name.Local, space: a.Name.Space, v: a.Value})
			}
			stack = append(stack, n)
		case xml.EndElement:
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if n.name == "VTOK" {
				id, err := strconv.Atoi(n.attrs[0].v.(string))
				if err == nil && id < len(x.reg.toks) {
					if tn, ok := x.reg.toks[id].(*Node); ok {
						n = tn
					}
				}
			}
			if len(stack) == 0 {
				return n, int(d.InputOffset()), nil
			}
			p := stack[len(stack)-1]
			p.kids = append(p.kids, n)
		case xml.CharData:
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.text = p.text.(string) + string(t)
			}
		}
	}
}

type xmlTag struct {
	name, space                    string
	attr, chardata, cdata, any, om bool
	inner, comment                 bool
	path                           []string
	skip                           bool
}

func parseXMLTag(f *types.Var, tag string) xmlTag {
	var t xmlTag
	v, ok := reflect.StructTag(tag).Lookup("xml")
	if v == "-" || !f.Exported() {
		t.skip = true
		return t
	}
	if !ok {
		t.name = f.Name()
		return t
	}
	if i := strings.Index(v, " "); i >= 0 {
		t.space, v = v[:i], v[i+1:]
	}
	toks := strings.Split(v, ",")
	for _, o := range toks[1:] {
		switch o {
		case "attr":
			t.attr = true
		case "chardata":
			t.chardata = true
		case "cdata":
			t.cdata = true
		case "omitempty":
			t.om = true
		case "innerxml":
			t.inner = true
		case "comment":
			t.comment = true
		case "any":
			t.any = true
		}
	}
	t.name = toks[0]
	if t.chardata || t.cdata || t.inner || t.comment || t.any {
		return t
	}
	if t.name == "" {
		t.name = f.Name()
	}
	if strings.Contains(t.name, ">") {
		p := strings.Split(t.name, ">")
		t.path, t.name = p[:len(p)-1], p[len(p)-1]
		if t.name == "" {
			t.name = f.Name()
		}
	}
	return t
}

// xmlConflict is the error encoding/xml reports for a structure with two fields
// that stand for the same part of a document.
func xmlConflict(t types.Type, u *types.Struct) error {
	type fi struct {
		tg   xmlTag
		name string
	}
	mode := func(t xmlTag) int {
		for i, b := range []bool{t.attr, t.chardata, t.cdata, t.inner, t.comment, t.any} {
			if b {
				return i + 1
			}
		}
		return 0
	}
	var old []fi
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tg := parseXMLTag(f, u.Tag(i))
		if tg.skip || f.Name() == "XMLName" {
			continue
		}
		if mode(tg) > 1 {
			tg.name = ""
		}
		for _, o := range old {
			if mode(o.tg) != mode(tg) || tg.space != "" && o.tg.space != "" && tg.space != o.tg.space {
				continue
			}
			a, b := append(append([]string{}, o.tg.path...), o.tg.name), append(append([]string{}, tg.path...), tg.name)
			k := min(len(a), len(b))
			if strings.Join(a[:k], ">") != strings.Join(b[:k], ">") || len(a) == len(b) && o.tg.space != tg.space {
				continue
			}
			return fmt.Errorf("%s field %q with tag %q conflicts with field %q with tag %q", t, o.name, o.name, f.Name(), reflect.StructTag(u.Tag(i)).Get("xml"))
		}
		old = append(old, fi{tg, f.Name()})
	}
	return nil
}

func (x *X) isEmpty(t types.Type, v Value) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strLen(v) == 0
		case u.Info()&types.IsInteger != 0:
			return x.truth(x.equal(t, v, uint64(0)))
		case u.Info()&types.IsBoolean != 0:
			return !x.truth(v)
		case u.Info()&types.IsFloat != 0:
			return v == float64(0)
		}
	case *types.Slice:
		return len(v.([]Value)) == 0
	case *types.Array:
		return len(v.(Array)) == 0
	case *types.Map:
		m := v.(*Map)
		return m == nil || m.n == 0
	case *types.Pointer:
		return v.(*Value) == nil
	case *types.Interface:
		return v.(Iface).T == nil
	}
	return false
}

// leaf renders a scalar for XML.
func (x *X) xmlLeaf(t types.Type, v Value) (text Value, ival Value, ok bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return v, nil, true
		case u.Info()&types.IsInteger != 0:
			w := widthOf(t)
			switch c := v.(type) {
			case uint64:
				if isSigned(t) {
					return strconv.FormatInt(sext(c, w), 10), nil, true
				}
				return strconv.FormatUint(c, 10), nil, true
			case *Term:
				if isSigned(t) {
					return "", fromTerm(x.w.pool.SExt(c, 64)), true
				}
				return "", fromTerm(x.w.pool.ZExt(c, 64)), true
			}
		case u.Info()&types.IsBoolean != 0:
			if x.truth(v) {
				return "true", nil, true
			}
			return "false", nil, true
		}
	case *types.Slice:
		if isBytes(t) {
			return mkStr(v.([]Value)), nil, true
		}
	}
	return nil, nil, false
}

// xmlEnc produces the nodes v encodes to under the given name.
func (x *X) xmlEnc(t types.Type, v Value, name string, top bool) []*Node {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			return nil
		}
		return x.xmlEnc(u.Elem(), *p, name, top)
	case *types.Interface:
		i := v.(Iface)
		if i.T == nil {
			return nil
		}
		return x.xmlEnc(i.T, i.V, name, top)
	case *types.Slice:
		if !isBytes(t) {
			var out []*Node
			for _, e := range v.([]Value) {
				out = append(out, x.xmlEnc(u.Elem(), e, name, top)...)
			}
			return out
		}
	case *types.Struct:
		if name == "" {
			if n, ok := t.(*types.Named); ok {
				name = n.Obj().Name()
			}
		}
		if err := xmlConflict(t, u); err != nil && x.xmlErr == nil {
			x.xmlErr = err
		}
		n := &Node{name: name, text: ""}
		s := v.(Struct)
		lastPath := []string{}
		var cur []*Node
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "XMLName" {
				tg := parseXMLTag(f, u.Tag(i))
				if loc, ok := x.getField(s[i].(Struct), f.Type(), "Local").(string); ok && loc != "" {
					n.name = loc
				} else if tg.name != "" && tg.name != "XMLName" {
					n.name = tg.name
				}
				continue
			}
			tg := parseXMLTag(f, u.Tag(i))
			if tg.skip {
				continue
			}
			if tg.om && x.isEmpty(f.Type(), s[i]) {
				continue
			}
			ft, fv := f.Type(), s[i]
			for {
				p, ok := ft.Underlying().(*types.Pointer)
				if !ok {
					break
				}
				q := fv.(*Value)
				if q == nil {
					fv = nil
					break
				}
				ft, fv = p.Elem(), *q
			}
			if fv == nil {
				continue
			}
			if tg.attr {
				tx, iv, ok := x.xmlLeaf(ft, fv)
				if !ok {
					unsup("xml attr of %s", ft)
				}
				n.attrs = append(n.attrs, nodeAttr{name: tg.name, space: tg.space, v: tx, ival: iv})
				continue
			}
			if tg.chardata || tg.cdata {
				tx, iv, ok := x.xmlLeaf(ft, fv)
				if !ok {
					unsup("xml chardata of %s", ft)
				}
				if iv != nil {
					tx = x.itoa(iv, 64, isSigned(ft))
				}
				n.text = strCat(n.text, tx)
				n.cdata = n.cdata || tg.cdata
				continue
			}
			if tg.inner || tg.comment || tg.any {
				unsup("xml tag on %s", f.Name())
			}
			parent := n
			if len(tg.path) > 0 {
				// share parents with the previous field where the path agrees
				k := 0
				for k < len(lastPath) && k < len(tg.path) && lastPath[k] == tg.path[k] {
					k++
				}
				cur = cur[:k]
				for ; k < len(tg.path); k++ {
					pn := &Node{name: tg.path[k], text: ""}
					pp := n
					if k > 0 {
						pp = cur[k-1]
					}
					pp.kids = append(pp.kids, pn)
					cur = append(cur, pn)
				}
				lastPath = tg.path
				parent = cur[len(cur)-1]
			} else {
				lastPath, cur = nil, nil
			}
			parent.kids = append(parent.kids, x.xmlEnc(ft, fv, tg.name, false)...)
		}
		return []*Node{n}
	}
	tx, iv, ok := x.xmlLeaf(t, v)
	if !ok {
		unsup("xml encode of %s", t)
	}
	if name == "" {
		if n, ok := t.(*types.Named); ok {
			name = n.Obj().Name()
		} else {
			name = t.String()
		}
	}
	return []*Node{{name: name, text: tx, ival: iv}}
}

func (x *X) xmlSetScalar(t types.Type, p *Value, text, ival Value) error {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(u.Elem())
			*p = q
		}
		return x.xmlSetScalar(u.Elem(), q, text, ival)
	case *types.Slice:
		if isBytes(t) {
			*p = strBytes(text)
			return nil
		}
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if ival != nil {
				text = x.itoa(ival, 64, true)
			}
			*p = text
			return nil
		case u.Info()&types.IsInteger != 0:
			w := widthOf(t)
			if ival != nil {
				switch c := ival.(type) {
				case uint64:
					*p = c & mask(w)
				case *Term:
					r := x.w.pool.Extract(c, w-1, 0)
					if w < 64 {
						back := x.w.pool.ZExt(r, 64)
						if isSigned(t) {
							back = x.w.pool.SExt(r, 64)
						}
						if !x.truth(fromTerm(x.w.pool.Eq(back, c))) {
							return fmt.Errorf("strconv.ParseInt: value out of range")
						}
					}
					*p = fromTerm(r)
				}
				return nil
			}
			s, ok := text.(string)
			if !ok {
				// symbolic text into an integer field: the real parser
				var r Tuple
				if isSigned(t) {
					r = x.call(x.cur.fr, x.w.eng.funcByName("strconv", "ParseInt"), []Value{text, uint64(10), uint64(w)}, nil).(Tuple)
				} else {
					r = x.call(x.cur.fr, x.w.eng.funcByName("strconv", "ParseUint"), []Value{text, uint64(10), uint64(w)}, nil).(Tuple)
				}
				if r[1].(Iface).T != nil {
					return fmt.Errorf("strconv: invalid syntax")
				}
				*p = r[0]
				if tm, ok := r[0].(*Term); ok && w < 64 {
					*p = fromTerm(x.w.pool.Extract(tm, w-1, 0))
				}
				return nil
			}
			if len(s) == 0 {
				*p = uint64(0)
				return nil
			}
			if isSigned(t) {
				n, err := strconv.ParseInt(strings.TrimSpace(s), 10, int(w))
				if err != nil {
					return err
				}
				*p = uint64(n) & mask(w)
			} else {
				n, err := strconv.ParseUint(strings.TrimSpace(s), 10, int(w))
				if err != nil {
					return err
				}
				*p = n & mask(w)
			}
			return nil
		case u.Info()&types.IsBoolean != 0:
			s, ok := text.(string)
			if !ok {
				unsup("symbolic bool text")
			}
			if len(s) == 0 {
				*p = false
				return nil
			}
			b, err := strconv.ParseBool(strings.TrimSpace(s))
			if err != nil {
				return err
			}
			*p = b
			return nil
		}
	}
	unsup("xml decode into %s", t)
	return nil
}

// xmlDec unmarshals node n into slot p of type t.
func (x *X) xmlDec(n *Node, t types.Type, p *Value) error {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(u.Elem())
			*p = q
		}
		return x.xmlDec(n, u.Elem(), q)
	case *types.Slice:
		if !isBytes(t) {
			s, _ := (*p).([]Value)
			e := new(Value)
			*e = zero(u.Elem())
			if err := x.xmlDec(n, u.Elem(), e); err != nil {
				return err
			}
			*p = append(s[:len(s):len(s)], *e)
			return nil
		}
	case *types.Struct:
		if err := xmlConflict(t, u); err != nil {
			return err
		}
		s := (*p).(Struct)
		hasText := false
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "XMLName" {
				tg := parseXMLTag(f, u.Tag(i))
				if tg.name != "" && tg.name != "XMLName" && tg.name != n.name {
					return fmt.Errorf("expected element type <%s> but have <%s>", tg.name, n.name)
				}
				nm := s[i].(Struct)
				nm[0], nm[1] = n.space, n.name
				continue
			}
			tg := parseXMLTag(f, u.Tag(i))
			if tg.skip {
				continue
			}
			if tg.attr {
				for _, a := range n.attrs {
					if a.name == tg.name && (tg.space == "" || a.space == tg.space) {
						if err := x.xmlSetScalar(f.Type(), &s[i], a.v, a.ival); err != nil {
							return err
						}
					}
				}
				continue
			}
			if tg.chardata || tg.cdata {
				hasText = true
				if err := x.xmlSetScalar(f.Type(), &s[i], n.text, n.ival); err != nil {
					return err
				}
				continue
			}
			if tg.inner || tg.comment || tg.any {
				unsup("xml tag on %s", f.Name())
			}
		}
		_ = hasText
		for _, k := range n.kids {
			if err := x.xmlKid(k, u, s, nil); err != nil {
				return err
			}
		}
		return nil
	}
	return x.xmlSetScalar(t, p, n.text, n.ival)
}

func (x *X) xmlKid(k *Node, u *types.Struct, s Struct, path []string) error {
	// exact match at this path
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tg := parseXMLTag(f, u.Tag(i))
		if tg.skip || tg.attr || tg.chardata || tg.cdata || f.Name() == "XMLName" {
			continue
		}
		if tg.name == k.name && strings.Join(tg.path, ">") == strings.Join(path, ">") {
			return x.xmlDec(k, f.Type(), &s[i])
		}
	}
	// prefix of some path
	np := append(append([]string{}, path...), k.name)
	for i := 0; i < u.NumFields(); i++ {
		tg := parseXMLTag(u.Field(i), u.Tag(i))
		if len(tg.path) >= len(np) && strings.Join(tg.path[:len(np)], ">") == strings.Join(np, ">") {
			for _, c := range k.kids {
				if err := x.xmlKid(c, u, s, np); err != nil {
					return err
				}
			}
			return nil
		}
	}
	return nil
}

type xmlEncState struct {
	w     Iface
	buf   Value
	stack []string
}
type xmlDecState struct {
	r          Iface
	data       Value
	pos        int
	read       bool
	placed     map[string]Value
	placedText string
}

// readAll drains an io.Reader.
func (x *X) readAll(fr *Frame, r Iface) (Value, Iface) {
	if of := x.fileOf(r.V); of != nil {
		if of.closed || of.n.dir || !of.r {
			t := x.callMethod(fr, r, "Read", []Value{uint64(0)}).(Tuple)
			return "", t[1].(Iface)
		}
		d := strSlice(of.n.data, min(of.off, strLen(of.n.data)), strLen(of.n.data))
		of.off = max(of.off, strLen(of.n.data))
		return d, nilErr
	}
	var out Value = ""
	eof := x.load(x.globalAddr(x.w.eng.pkg("io").Var("EOF"))).(Iface)
	for i := 0; i < 100000; i++ {
		buf := make([]Value, 4096)
		for i := range buf {
			buf[i] = uint64(0)
		}
		t := x.callMethod(fr, r, "Read", buf).(Tuple)
		n := x.concInt(t[0])
		out = strCat(out, mkStr(buf[:n]))
		if e := t[1].(Iface); e.T != nil {
			if types.Identical(e.T, eof.T) && x.truth(x.equal(e.T, e.V, eof.V)) {
				return out, nilErr
			}
			return out, e
		}
	}
	unsup("readAll does not end")
	return nil, nilErr
}

// xmlPlace replaces the symbolic bytes of a document by private-use characters.
// They may only be ordinary text characters.
func (x *X) xmlPlace(st *xmlDecState) (string, map[string]Value) {
	if st.placed == nil {
		st.placedText, st.placed = x.placeSym(st.data, "xml")
	}
	return st.placedText, st.placed
}

func (x *X) placeSym(data Value, what string) (string, map[string]Value) {
	b := strBytes(data)
	p := x.w.pool
	var sb strings.Builder
	m := map[string]Value{}
	var odd []*Term
	seen := map[*Term]bool{}
	for _, c := range b {
		t, ok := c.(*Term)
		if !ok {
			sb.WriteByte(byte(c.(uint64)))
			continue
		}
		r := string(rune(0xE000 + len(m)))
		m[r] = t
		sb.WriteString(r)
		if !seen[t] {
			seen[t] = true
			ok := x.plainByte(t)
			if x.markup {
				ok = p.Or(ok, p.Cmp(OpUle, p.Const(8, 0x80), t))
			}
			odd = append(odd, p.Not(ok))
		}
	}
	if x.truth(fromTerm(p.Or(odd...))) {
		unsup("%s decode of symbolic markup", what)
	}
	return sb.String(), m
}

// unplaceStr puts the symbolic bytes back into a decoded text.
func unplaceStr(s string, m map[string]Value) Value {
	var b []Value
	any := false
	for _, r := range s {
		if t, ok := m[string(r)]; ok && r >= 0xE000 {
			b = append(b, t)
			any = true
		} else {
			b = append(b, strBytes(string(r))...)
		}
	}
	if !any {
		return s
	}
	return mkStr(b)
}

func unplaceDoc(v jval, m map[string]Value) jval {
	switch v := v.(type) {
	case string:
		return unplaceStr(v, m)
	case []jval:
		for i := range v {
			v[i] = unplaceDoc(v[i], m)
		}
	case jobj:
		for i := range v {
			if k, ok := v[i].k.(string); ok {
				if _, ok := unplaceStr(k, m).(string); !ok {
					unsup("symbolic document key")
				}
			}
			v[i].v = unplaceDoc(v[i].v, m)
		}
	}
	return v
}

func (x *X) xmlUnplace(n *Node, m map[string]Value) {
	conv := func(v Value) Value {
		s, ok := v.(string)
		if !ok {
			return v
		}
		return unplaceStr(s, m)
	}
	for i := range n.attrs {
		n.attrs[i].v = conv(n.attrs[i].v)
	}
	n.text = conv(n.text)
	if strings.ContainsFunc(n.name, func(r rune) bool { return r >= 0xE000 && r < 0xF000 }) {
		unsup("symbolic element name")
	}
	for _, k := range n.kids {
		x.xmlUnplace(k, m)
	}
}

func (x *X) eofErr() Iface { return x.load(x.globalAddr(x.w.eng.pkg("io").Var("EOF"))).(Iface) }

func (x *X) xmlDecodeText(st *xmlDecState, e Iface) Iface {
	s, ok := st.data.(string)
	var subst map[string]Value
	if !ok {
		s, subst = x.xmlPlace(st)
	}
	n, used, err := x.parseXML(s[st.pos:])
	st.pos += used
	if n != nil && subst != nil {
		x.xmlUnplace(n, subst)
	}
	if err == io.EOF {
		return x.eofErr()
	}
	if err != nil {
		return x.newError("XML syntax error: " + err.Error())
	}
	if e.T == nil {
		return x.newError("non-pointer passed to Unmarshal")
	}
	pt, ok := e.T.Underlying().(*types.Pointer)
	if !ok {
		return x.newError("non-pointer passed to Unmarshal")
	}
	p := e.V.(*Value)
	if p == nil {
		return x.newError("nil pointer passed to Unmarshal")
	}
	if derr := x.xmlDec(n, pt.Elem(), p); derr != nil {
		return x.newError(derr.Error())
	}
	return nilErr
}

func init() {
	const px = "encoding/xml."
	reg(px+"NewEncoder", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = zero(x.w.eng.typeByName("encoding/xml", "Encoder"))
		x.shadow[p] = &xmlEncState{w: a[0].(Iface), buf: ""}
		return p
	})
	enc := func(name string, f func(x *X, fr *Frame, st *xmlEncState, a []Value) Value) {
		reg("(*encoding/xml.Encoder)."+name, func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			return f(x, fr, x.shadow[a[0]].(*xmlEncState), a[1:])
		})
	}
	flush := func(x *X, fr *Frame, st *xmlEncState) Value {
		if strLen(st.buf) == 0 {
			return nilErr
		}
		b := st.buf
		st.buf = ""
		r := x.callMethod(fr, st.w, "Write", strBytes(b)).(Tuple)
		return r[1]
	}
	enc("Indent", func(x *X, fr *Frame, st *xmlEncState, a []Value) Value { return nil })
	enc("Flush", func(x *X, fr *Frame, st *xmlEncState, a []Value) Value { return flush(x, fr, st) })
	enc("Close", func(x *X, fr *Frame, st *xmlEncState, a []Value) Value {
		e := flush(x, fr, st)
		if e.(Iface).T == nil && len(st.stack) > 0 {
			return x.newError("unclosed tag <" + st.stack[len(st.stack)-1] + ">")
		}
		return e
	})
	encode := func(x *X, fr *Frame, st *xmlEncState, v Iface, name string) Value {
		if v.T != nil {
			x.xmlErr = nil
			nodes := x.xmlEnc(v.T, v.V, name, true)
			if x.xmlErr != nil {
				return x.newError(x.xmlErr.Error())
			}
			for _, n := range nodes {
				if x.markup || nodeWide(n) {
					st.buf = strCatAll(st.buf, "\n", x.xmlRender(n))
					continue
				}
				st.buf = strCatAll(st.buf, "\n", x.nodeToken(n))
			}
		}
		return flush(x, fr, st)
	}
	enc("Encode", func(x *X, fr *Frame, st *xmlEncState, a []Value) Value {
		return encode(x, fr, st, a[0].(Iface), "")
	})
	enc("EncodeElement", func(x *X, fr *Frame, st *xmlEncState, a []Value) Value {
		start := a[1].(Struct)
		if as := start[1].([]Value); len(as) > 0 {
			unsup("EncodeElement with attributes")
		}
		return encode(x, fr, st, a[0].(Iface), start[0].(Struct)[1].(string))
	})
	enc("EncodeToken", func(x *X, fr *Frame, st *xmlEncState, a []Value) Value {
		t := a[0].(Iface)
		switch tn := t.T.(*types.Named).Obj().Name(); tn {
		case "StartElement":
			n := t.V.(Struct)[0].(Struct)[1].(string)
			st.stack = append(st.stack, n)
			st.buf = strCatAll(st.buf, "<"+n+">")
		case "EndElement":
			n := t.V.(Struct)[0].(Struct)[1].(string)
			if len(st.stack) == 0 || st.stack[len(st.stack)-1] != n {
				return x.newError("xml: end tag </" + n + "> without matching start tag")
			}
			st.stack = st.stack[:len(st.stack)-1]
			st.buf = strCatAll(st.buf, "\n</"+n+">")
		default:
			unsup("EncodeToken %s", tn)
		}
		return nilErr
	})
	reg(px+"Marshal", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		v := a[0].(Iface)
		out := ""
		x.xmlErr = nil
		nodes := x.xmlEnc(v.T, v.V, "", true)
		if x.xmlErr != nil {
			return Tuple{[]Value(nil), x.newError(x.xmlErr.Error())}
		}
		for _, n := range nodes {
			out += x.nodeToken(n)
		}
		return Tuple{strBytes(out), nilErr}
	})
	intrinsics[px+"MarshalIndent"] = intrinsics[px+"Marshal"]
	reg(px+"NewDecoder", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = zero(x.w.eng.typeByName("encoding/xml", "Decoder"))
		x.shadow[p] = &xmlDecState{r: a[0].(Iface)}
		return p
	})
	reg("(*encoding/xml.Decoder).Decode", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := x.shadow[a[0]].(*xmlDecState)
		if !st.read {
			d, e := x.readAll(fr, st.r)
			if e.T != nil {
				return e
			}
			st.data, st.read = d, true
		}
		return x.xmlDecodeText(st, a[1].(Iface))
	})
	reg(px+"Unmarshal", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.xmlDecodeText(&xmlDecState{data: mkStr(a[0].([]Value)), read: true}, a[1].(Iface))
	})
}

// ---------------------------------------------------------------- json / toml

// jval is a generic document value: nil, bool/*Term0, number Value with
// signedness, string Value, []jval, jobj.
type jval any
type jnum struct {
	v      Value
	signed bool
	f      *float64
}
type jfield struct {
	k Value
	v jval
}
type jobj []jfield

func tagName(f *types.Var, tag, key string) (name string, omit, skip bool) {
	if !f.Exported() {
		return "", false, true
	}
	v, ok := reflect.StructTag(tag).Lookup(key)
	if !ok {
		return f.Name(), false, false
	}
	p := strings.Split(v, ",")
	if p[0] == "-" && len(p) == 1 {
		return "", false, true
	}
	for _, o := range p[1:] {
		if o == "omitempty" {
			omit = true
		}
	}
	if p[0] == "" {
		return f.Name(), omit, false
	}
	return p[0], omit, false
}

func (x *X) jEnc(t types.Type, v Value, key string) jval {
	if selfEnc(t) {
		return struct{ T Value }{copyVal(v)}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			return nil
		}
		return x.jEnc(u.Elem(), *p, key)
	case *types.Interface:
		i := v.(Iface)
		if i.T == nil {
			return nil
		}
		return x.jEnc(i.T, i.V, key)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0, u.Info()&types.IsBoolean != 0:
			return v
		case u.Info()&types.IsInteger != 0:
			w := widthOf(t)
			if c, ok := v.(uint64); ok {
				if isSigned(t) {
					return jnum{v: uint64(sext(c, w)), signed: true}
				}
				return jnum{v: c}
			}
			if isSigned(t) {
				return jnum{v: fromTerm(x.w.pool.SExt(v.(*Term), 64)), signed: true}
			}
			return jnum{v: fromTerm(x.w.pool.ZExt(v.(*Term), 64))}
		case u.Info()&types.IsFloat != 0:
			f := v.(float64)
			return jnum{f: &f}
		}
	case *types.Slice:
		if isBytes(t) {
			unsup("json []byte")
		}
		s := v.([]Value)
		if s == nil {
			return nil
		}
		out := []jval{}
		for _, e := range s {
			out = append(out, x.jEnc(u.Elem(), e, key))
		}
		return out
	case *types.Array:
		out := []jval{}
		for _, e := range v.(Array) {
			out = append(out, x.jEnc(u.Elem(), e, key))
		}
		return out
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return nil
		}
		var o jobj
		for _, e := range m.ents {
			o = append(o, jfield{e.k, x.jEnc(u.Elem(), e.v, key)})
		}
		return o
	case *types.Struct:
		var o jobj
		s := v.(Struct)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Embedded() {
				if _, has := reflect.StructTag(u.Tag(i)).Lookup(key); !has {
					if in, ok := x.jEnc(f.Type(), s[i], key).(jobj); ok {
						o = append(o, in...)
					}
					continue
				}
			}
			n, omit, skip := tagName(f, u.Tag(i), key)
			if skip || (omit && x.isEmpty(f.Type(), s[i])) {
				continue
			}
			o = append(o, jfield{n, x.jEnc(f.Type(), s[i], key)})
		}
		if o == nil {
			o = jobj{}
		}
		return o
	}
	unsup("%s encode of %s", key, t)
	return nil
}

func (x *X) jDec(j jval, t types.Type, p *Value, key string) error {
	bad := func() error { return fmt.Errorf("%s: cannot unmarshal into Go value of type %s", key, t) }
	if selfEnc(t) {
		if s, ok := j.(struct{ T Value }); ok {
			storeTo(p, copyVal(s.T))
			return nil
		}
		if j == nil {
			return nil
		}
		unsup("time text in %s", key)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if j == nil {
			*p = (*Value)(nil)
			return nil
		}
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(u.Elem())
			*p = q
		}
		return x.jDec(j, u.Elem(), q, key)
	case *types.Basic:
		if j == nil {
			return nil
		}
		switch {
		case u.Info()&types.IsString != 0:
			switch j.(type) {
			case string, *SymStr:
				*p = j
				return nil
			}
			return bad()
		case u.Info()&types.IsBoolean != 0:
			switch b := j.(type) {
			case bool:
				*p = b
				return nil
			case *Term:
				*p = b
				return nil
			}
			return bad()
		case u.Info()&types.IsInteger != 0:
			n, ok := j.(jnum)
			if !ok || n.f != nil {
				return bad()
			}
			w := widthOf(t)
			tm := x.termW(n.v, 64)
			r := x.w.pool.Extract(tm, w-1, 0)
			if w < 64 {
				back := x.w.pool.ZExt(r, 64)
				if isSigned(t) {
					back = x.w.pool.SExt(r, 64)
				}
				if !x.truth(fromTerm(x.w.pool.Eq(back, tm))) {
					return bad()
				}
			} else if !isSigned(t) && n.signed && x.truth(fromTerm(x.w.pool.Cmp(OpSlt, tm, x.w.pool.Const(64, 0)))) {
				return bad()
			}
			*p = fromTerm(r)
			return nil
		case u.Info()&types.IsFloat != 0:
			n, ok := j.(jnum)
			if !ok || n.f == nil {
				unsup("float decode")
			}
			*p = *n.f
			return nil
		}
	case *types.Slice:
		if j == nil {
			*p = []Value(nil)
			return nil
		}
		l, ok := j.([]jval)
		if !ok {
			return bad()
		}
		s := make([]Value, len(l))
		for i := range l {
			s[i] = zero(u.Elem())
			if err := x.jDec(l[i], u.Elem(), &s[i], key); err != nil {
				return err
			}
		}
		*p = s
		return nil
	case *types.Map:
		if j == nil {
			return nil
		}
		o, ok := j.(jobj)
		if !ok {
			return bad()
		}
		m, _ := (*p).(*Map)
		if m == nil {
			m = newMap(u.Key())
			*p = m
		}
		for _, f := range o {
			v := zero(u.Elem())
			if err := x.jDec(f.v, u.Elem(), &v, key); err != nil {
				return err
			}
			x.mapSet(m, f.k, v)
		}
		return nil
	case *types.Struct:
		if j == nil {
			return nil
		}
		o, ok := j.(jobj)
		if !ok {
			return bad()
		}
		s := (*p).(Struct)
		for _, f := range o {
			k, ok := f.k.(string)
			if !ok {
				unsup("symbolic object key")
			}
			if err := x.jSetField(u, s, k, f.v, key); err != nil {
				return err
			}
		}
		return nil
	case *types.Interface:
		unsup("%s decode into interface", key)
	}
	unsup("%s decode into %s", key, t)
	return nil
}

func (x *X) jSetField(u *types.Struct, s Struct, k string, v jval, key string) error {
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Embedded() {
				if _, has := reflect.StructTag(u.Tag(i)).Lookup(key); !has {
					if in, ok := f.Type().Underlying().(*types.Struct); ok {
						if err := x.jSetField(in, s[i].(Struct), k, v, key); err != nil {
							return err
						}
					}
					continue
				}
			}
			n, _, skip := tagName(f, u.Tag(i), key)
			if skip {
				continue
			}
			if (pass == 0 && n == k) || (pass == 1 && strings.EqualFold(n, k)) {
				return x.jDec(v, f.Type(), &s[i], key)
			}
		}
	}
	return nil
}

func nativeToJ(v any) jval {
	switch v := v.(type) {
	case nil:
		return nil
	case bool, string:
		return v
	case json.Number:
		if n, err := strconv.ParseInt(string(v), 10, 64); err == nil {
			return jnum{v: uint64(n), signed: true}
		}
		f, _ := v.Float64()
		return jnum{f: &f}
	case int64:
		return jnum{v: uint64(v), signed: true}
	case float64:
		return jnum{f: &v}
	case []any:
		out := []jval{}
		for _, e := range v {
			out = append(out, nativeToJ(e))
		}
		return out
	case []map[string]any:
		out := []jval{}
		for _, e := range v {
			out = append(out, nativeToJ(map[string]any(e)))
		}
		return out
	case map[string]any:
		o := jobj{}
		for _, k := range sortedKeys(v) {
			o = append(o, jfield{k, nativeToJ(v[k])})
		}
		return o
	}
	unsup("document value %T", v)
	return nil
}

// docText finds the document of a JSON/TOML text: a token or real text.
func (x *X) docOf(text Value, key string) (jval, error) {
	s, ok := text.(string)
	if !ok {
		s, m := x.placeSym(text, key)
		d, err := x.docOf(s, key)
		if err != nil {
			plain := strings.Map(func(r rune) rune {
				if _, ok := m[string(r)]; ok {
					return 'a'
				}
				return r
			}, s)
			if _, e := x.docOf(plain, key); e == nil {
				unsup("symbolic %s text outside strings", key)
			}
			return nil, err
		}
		return unplaceDoc(d, m), nil
	}
	ts := strings.TrimSpace(s)
	if strings.HasPrefix(ts, "\"@VDOC") && strings.HasSuffix(ts, "@\"") && len(ts) == 18 {
		id, err := strconv.Atoi(ts[6:16])
		if err == nil && id < len(x.reg.toks) {
			if d, ok := x.reg.toks[id].(*docTok); ok {
				return d.v, nil
			}
		}
	}
	if key == "toml" {
		m, err := parseTOML(s)
		if err != nil {
			return nil, err
		}
		return nativeToJ(m), nil
	}
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	return nativeToJ(v), nil
}

type docTok struct{ v jval }

func (x *X) docToken(v jval) string {
	id := x.reg.add("", &docTok{v})
	return fmt.Sprintf("\"@VDOC%010d@\"", id)
}

func (x *X) docInto(text Value, e Iface, key string) Iface {
	if e.T == nil {
		return x.newError(key + ": Unmarshal(nil)")
	}
	pt, ok := e.T.Underlying().(*types.Pointer)
	if !ok || e.V.(*Value) == nil {
		return x.newError(key + ": Unmarshal(non-pointer)")
	}
	d, err := x.docOf(text, key)
	if err == io.EOF {
		return x.eofErr()
	}
	if err != nil {
		return x.newError(err.Error())
	}
	if err := x.jDec(d, pt.Elem(), e.V.(*Value), key); err != nil {
		return x.newError(err.Error())
	}
	return nilErr
}

func init() {
	type jsenc struct{ w Iface }
	type jsdec struct{ r Iface }
	mk := func(x *X, pkg, tn string, sh any) Value {
		p := new(Value)
		*p = zero(x.w.eng.typeByName(pkg, tn))
		x.shadow[p] = sh
		return p
	}
	for _, pk := range []string{"encoding/json"} {
		pk := pk
		reg(pk+".Marshal", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			v := a[0].(Iface)
			if v.T == nil {
				return Tuple{strBytes("null"), nilErr}
			}
			return Tuple{strBytes(x.docToken(x.jEnc(v.T, v.V, "json"))), nilErr}
		})
		intrinsics[pk+".MarshalIndent"] = intrinsics[pk+".Marshal"]
		reg(pk+".Unmarshal", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			return x.docInto(mkStr(a[0].([]Value)), a[1].(Iface), "json")
		})
		reg(pk+".NewEncoder", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			return mk(x, pk, "Encoder", &jsenc{a[0].(Iface)})
		})
		reg(pk+".NewDecoder", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			return mk(x, pk, "Decoder", &jsdec{a[0].(Iface)})
		})
		reg("(*"+pk+".Encoder).SetIndent", zeroI)
		reg("(*"+pk+".Encoder).Encode", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			st := x.shadow[a[0]].(*jsenc)
			v := a[1].(Iface)
			s := "null"
			if v.T != nil {
				s = x.docToken(x.jEnc(v.T, v.V, "json"))
			}
			r := x.callMethod(fr, st.w, "Write", strBytes(s+"\n")).(Tuple)
			return r[1]
		})
		reg("(*"+pk+".Decoder).Decode", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			st := x.shadow[a[0]].(*jsdec)
			d, e := x.readAll(fr, st.r)
			if e.T != nil {
				return e
			}
			return x.docInto(d, a[1].(Iface), "json")
		})
	}
	const tm = "github.com/BurntSushi/toml"
	meta := func(x *X) Value { return zero(x.w.eng.typeByName(tm, "MetaData")) }
	reg(tm+".DecodeFile", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		d, e := x.fsRead(a[0])
		if e != 0 {
			return Tuple{meta(x), x.pathErr("open", a[0], e)}
		}
		return Tuple{meta(x), x.docInto(d, a[1].(Iface), "toml")}
	})
	reg(tm+".Decode", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{meta(x), x.docInto(a[0], a[1].(Iface), "toml")}
	})
	reg(tm+".Unmarshal", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.docInto(mkStr(a[0].([]Value)), a[1].(Iface), "toml")
	})
	reg(tm+".DecodeReader", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		d, e := x.readAll(fr, a[0].(Iface))
		if e.T != nil {
			return Tuple{meta(x), e}
		}
		return Tuple{meta(x), x.docInto(d, a[1].(Iface), "toml")}
	})
	reg(tm+".NewDecoder", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mk(x, tm, "Decoder", &jsdec{a[0].(Iface)})
	})
	reg("(*"+tm+".Decoder).Decode", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		d, e := x.readAll(fr, x.shadow[a[0]].(*jsdec).r)
		if e.T != nil {
			return Tuple{meta(x), e}
		}
		return Tuple{meta(x), x.docInto(d, a[1].(Iface), "toml")}
	})
}
