package main

// In-memory file system with inodes and hard links, at the level of package os.

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type inode struct {
	id    int
	dir   bool
	link  Value // symlink target
	data  Value // string | *SymStr
	mode  uint64
	nlink int
	mtime int64
	ents  []dirEnt
	bad   bool // unreadable directory (harness-injected)
	sock  bool
	locks map[*Value]bool
}

type dirEnt struct {
	name Value
	n    *inode
}

type FS struct {
	root *inode
	next int
	cwd  string
	// directories that are on other file systems
	elsewhere []Value
	fds       map[uint64]*openFile
	nfd       uint64
	flock     map[*inode]map[*openFile]bool // lock holders; true = exclusive
}

type openFile struct {
	x      *X
	n      *inode
	name   Value
	off    int
	r, w   bool
	app    bool
	closed bool
	fd     uint64
	std    bool
	dirpos int
	self   *Value
}

func newFS() *FS {
	f := &FS{cwd: "/", fds: map[uint64]*openFile{}, nfd: 10, flock: map[*inode]map[*openFile]bool{}}
	f.root = f.newNode(true)
	return f
}

func (f *FS) newNode(dir bool) *inode {
	f.next++
	n := &inode{id: f.next, dir: dir, mode: 0644, nlink: 1, data: ""}
	if dir {
		n.mode = 0755
	}
	return n
}

const (
	eNOENT    = 2
	eSRCH     = 3
	eIO       = 5
	eNXIO     = 6
	eBADF     = 9
	eAGAIN    = 11
	eACCES    = 13
	eEXIST    = 17
	eXDEV     = 18
	eNOTDIR   = 20
	eISDIR    = 21
	eINVAL    = 22
	eNOTEMPTY = 39
)

// child looks up name in directory d (forking on symbolic names).
func (x *X) child(d *inode, name Value) *inode {
	for _, e := range d.ents {
		if x.truth(x.strEq(e.name, name)) {
			return e.n
		}
	}
	return nil
}

func (d *inode) unlinkEnt(n *inode, x *X, name Value) {
	for i, e := range d.ents {
		if e.n == n && (x == nil || x.truth(x.strEq(e.name, name))) {
			d.ents = append(d.ents[:i:i], d.ents[i+1:]...)
			return
		}
	}
}

// splitPath cleans a path into components. Symbolic bytes are decided by forking.
func (x *X) splitPath(p Value) ([]Value, bool, bool) {
	if s, ok := p.(string); ok {
		if s == "" {
			return nil, false, false
		}
		trailing := strings.HasSuffix(s, "/")
		if !strings.HasPrefix(s, "/") {
			s = path.Join(x.fs.cwd, s)
		}
		s = path.Clean(s)
		if s == "/" {
			return nil, true, trailing
		}
		var out []Value
		for _, c := range strings.Split(s[1:], "/") {
			out = append(out, c)
		}
		return out, true, trailing
	}
	bs := strBytes(p)
	if len(bs) == 0 {
		return nil, false, false
	}
	isSlash := func(b Value) bool {
		return x.truth(fromTerm(x.w.pool.Eq(x.termW(b, 8), x.w.pool.Const(8, '/'))))
	}
	var comps []Value
	cur := []Value{}
	abs := isSlash(bs[0])
	for _, b := range bs {
		if isSlash(b) {
			comps = append(comps, mkStr(cur))
			cur = nil
			continue
		}
		cur = append(cur, b)
	}
	comps = append(comps, mkStr(cur))
	var out []Value
	if !abs {
		out, _, _ = x.splitPath(x.fs.cwd)
	}
	for _, c := range comps {
		if strLen(c) == 0 || x.truth(x.strEq(c, ".")) {
			continue
		}
		if x.truth(x.strEq(c, "..")) {
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
			continue
		}
		out = append(out, c)
	}
	return out, true, strLen(comps[len(comps)-1]) == 0
}

func isNulTerminated(x *X, p Value) bool {
	for i := 0; i < strLen(p); i++ {
		b := strByte(p, i)
		if c, ok := b.(uint64); ok {
			if c == 0 {
				return true
			}
			continue
		}
		if x.truth(fromTerm(x.w.pool.Eq(x.termW(b, 8), x.w.pool.Const(8, 0)))) {
			return true
		}
	}
	return false
}

// walk resolves a path. It returns parent, last component, node (nil if absent), errno.
func (x *X) walk(p Value, follow bool) (*inode, Value, *inode, uint64) {
	return x.walkN(p, follow, 0)
}

func (x *X) walkN(p Value, follow bool, depth int) (*inode, Value, *inode, uint64) {
	if depth > 8 {
		return nil, nil, nil, 40
	}
	if isNulTerminated(x, p) {
		return nil, nil, nil, eINVAL
	}
	comps, ok, trailing := x.splitPath(p)
	if !ok {
		return nil, nil, nil, eNOENT
	}
	cur := x.fs.root
	if len(comps) == 0 {
		return nil, "", cur, 0
	}
	var pre Value = ""
	for i, c := range comps {
		if !cur.dir {
			return nil, nil, nil, eNOTDIR
		}
		if strLen(c) > 255 {
			return nil, nil, nil, 36
		}
		n := x.child(cur, c)
		last := i == len(comps)-1
		if n != nil && n.link != nil && (!last || follow || trailing) {
			t := n.link
			if s, ok := t.(string); ok && !strings.HasPrefix(s, "/") {
				t = strCatAll(pre, "/", t)
			}
			for _, r := range comps[i+1:] {
				t = strCatAll(t, "/", r)
			}
			return x.walkN(t, follow, depth+1)
		}
		if last {
			if n != nil && !n.dir && trailing {
				return nil, nil, nil, eNOTDIR
			}
			return cur, c, n, 0
		}
		if n == nil {
			return nil, nil, nil, eNOENT
		}
		pre = strCatAll(pre, "/", c)
		cur = n
	}
	return nil, nil, nil, eNOENT
}

func (x *X) errnoIface(e uint64) Iface {
	return Iface{T: x.w.eng.typeByName("syscall", "Errno"), V: e}
}

func (x *X) pathErr(op string, p Value, e uint64) Iface {
	t := x.w.eng.typeByName("io/fs", "PathError")
	s := new(Value)
	*s = Struct{op, p, x.errnoIface(e)}
	return Iface{T: x.w.eng.ptrTo(t), V: s}
}

func (x *X) pathErrIface(op string, p Value, e Iface) Iface {
	t := x.w.eng.typeByName("io/fs", "PathError")
	s := new(Value)
	*s = Struct{op, p, e}
	return Iface{T: x.w.eng.ptrTo(t), V: s}
}

func (x *X) linkErr(op string, a, b Value, e uint64) Iface {
	t := x.w.eng.typeByName("os", "LinkError")
	s := new(Value)
	*s = Struct{op, a, b, x.errnoIface(e)}
	return Iface{T: x.w.eng.ptrTo(t), V: s}
}

var nilErr = Iface{}

func (x *X) setField(s Struct, st *types.Struct, name string, v Value) {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			s[i] = v
			return
		}
	}
	unsup("no field %s", name)
}

func (x *X) getField(s Struct, t types.Type, name string) Value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s[i]
		}
	}
	unsup("no field %s", name)
	return nil
}

const modeDir = uint64(1) << 31
const modeSymlink = uint64(1) << 27

func (x *X) fileInfo(name Value, n *inode) Iface {
	t := x.w.eng.typeByName("os", "fileStat")
	st := t.Underlying().(*types.Struct)
	s := zero(t).(Struct)
	x.setField(s, st, "name", name)
	x.setField(s, st, "size", uint64(strLen(n.data)))
	m := n.mode
	if n.dir {
		m |= modeDir
	}
	if n.link != nil {
		m |= modeSymlink
	}
	if n.sock {
		m |= 1 << 24 // fs.ModeSocket
	}
	x.setField(s, st, "mode", m)
	x.setField(s, st, "modTime", x.mkTime(n.mtime))
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "sys" {
			sys := s[i].(Struct)
			sst := st.Field(i).Type().Underlying().(*types.Struct)
			x.setField(sys, sst, "Ino", uint64(n.id))
			x.setField(sys, sst, "Nlink", uint64(n.nlink))
		}
	}
	p := new(Value)
	*p = s
	return Iface{T: x.w.eng.ptrTo(t), V: p}
}

// mkTime builds a time.Time (UTC, no monotonic reading) from unix nanoseconds.
func (x *X) mkTime(ns int64) Value {
	sec := ns / 1e9
	nsec := ns % 1e9
	t := x.w.eng.typeByName("time", "Time")
	s := zero(t).(Struct)
	st := t.Underlying().(*types.Struct)
	x.setField(s, st, "wall", uint64(nsec))
	x.setField(s, st, "ext", uint64(sec+62135596800))
	return s
}

func (x *X) tick() int64 {
	x.now += 1000003
	return x.now
}

// ---- open files

func (x *X) newFile(of *openFile) Value {
	t := x.w.eng.typeByName("os", "File")
	p := new(Value)
	*p = zero(t)
	of.x = x
	of.self = p
	x.fs.nfd++
	of.fd = x.fs.nfd
	x.fs.fds[of.fd] = of
	if x.inSharedInit > 0 {
		x.w.sharedShadow[p] = of
	} else {
		x.shadow[p] = of
	}
	return p
}

func (x *X) fileOf(v Value) *openFile {
	p, ok := v.(*Value)
	if !ok || p == nil {
		return nil
	}
	of, _ := x.shadow[p].(*openFile)
	if of == nil {
		of, _ = x.w.sharedShadow[p].(*openFile)
	}
	return of
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (x *X) openFileOp(name Value, flag uint64, perm uint64) (*openFile, uint64) {
	parent, last, n, e := x.walk(name, true)
	if e != 0 {
		return nil, e
	}
	if n == nil {
		if flag&oCREATE == 0 {
			return nil, eNOENT
		}
		n = x.fs.newNode(false)
		n.mode = perm & 0777
		n.mtime = x.tick()
		parent.ents = append(parent.ents, dirEnt{last, n})
	} else {
		if flag&oCREATE != 0 && flag&oEXCL != 0 {
			return nil, eEXIST
		}
		if n.dir && flag&3 != 0 {
			return nil, eISDIR
		}
		if n.bad {
			return nil, eACCES
		}
		if n.sock {
			return nil, eNXIO
		}
		if flag&oTRUNC != 0 && flag&3 != 0 {
			n.data = ""
			n.mtime = x.tick()
		}
	}
	of := &openFile{n: n, name: name, r: flag&3 == 0 || flag&3 == oRDWR, w: flag&3 != 0, app: flag&oAPPEND != 0}
	return of, 0
}

func (x *X) fileWrite(of *openFile, b []Value) (int, uint64) {
	if of.closed || (!of.w && !of.std) {
		return 0, eBADF
	}
	if of.std {
		return len(b), 0
	}
	if of.app {
		of.off = strLen(of.n.data)
	}
	L := strLen(of.n.data)
	if of.off == L {
		of.n.data = strCat(of.n.data, mkStr(b))
	} else {
		cur := strBytes(of.n.data)
		for len(cur) < of.off+len(b) {
			cur = append(cur, uint64(0))
		}
		copy(cur[of.off:], b)
		of.n.data = mkStr(cur)
	}
	of.off += len(b)
	of.n.mtime = x.tick()
	return len(b), 0
}

func (x *X) readNode(n *inode) Value { return n.data }

// fsWrite is used by models (xz, leveldb, harness helpers).
func (x *X) fsWrite(p Value, data Value) uint64 {
	of, e := x.openFileOp(p, oWRONLY|oCREATE|oTRUNC, 0644)
	if e != 0 {
		return e
	}
	of.n.data = data
	of.n.mtime = x.tick()
	return 0
}

func (x *X) fsRead(p Value) (Value, uint64) {
	_, _, n, e := x.walk(p, true)
	if e != 0 {
		return nil, e
	}
	if n == nil {
		return nil, eNOENT
	}
	if n.dir {
		return nil, eISDIR
	}
	if n.bad {
		return nil, eACCES
	}
	return n.data, 0
}

func (x *X) fsRemove(p Value) uint64 {
	parent, last, n, e := x.walk(p, false)
	if e != 0 {
		return e
	}
	if n == nil {
		return eNOENT
	}
	if parent == nil {
		return eINVAL
	}
	if n.dir && len(n.ents) > 0 {
		return eNOTEMPTY
	}
	parent.unlinkEnt(n, x, last)
	n.nlink--
	return 0
}

func (x *X) fsMkdir(p Value) uint64 {
	parent, last, n, e := x.walk(p, true)
	if e != 0 {
		return e
	}
	if n != nil {
		return eEXIST
	}
	d := x.fs.newNode(true)
	d.mtime = x.tick()
	parent.ents = append(parent.ents, dirEnt{last, d})
	return 0
}

func (x *X) fsMkdirAll(p Value) uint64 {
	comps, ok, _ := x.splitPath(p)
	if !ok {
		return eNOENT
	}
	cur := x.fs.root
	for _, c := range comps {
		n := x.child(cur, c)
		if n == nil {
			n = x.fs.newNode(true)
			n.mtime = x.tick()
			cur.ents = append(cur.ents, dirEnt{c, n})
		}
		if !n.dir {
			return eNOTDIR
		}
		cur = n
	}
	return 0
}

// device is the file system a path is on: 0, or one of the directories that
// were put on another.
func (x *X) device(p Value) int {
	comps, _, _ := x.splitPath(p)
	for i, d := range x.fs.elsewhere {
		other, _, _ := x.splitPath(d)
		same := len(comps) > len(other)
		for j := 0; same && j < len(other); j++ {
			same = x.truth(x.strEq(comps[j], other[j]))
		}
		if same {
			return i + 1
		}
	}
	return 0
}

func (x *X) fsRename(a, b Value) uint64 {
	pa, la, na, e := x.walk(a, false)
	if e != 0 {
		return e
	}
	if na == nil {
		return eNOENT
	}
	if len(x.fs.elsewhere) > 0 && x.device(a) != x.device(b) {
		return eXDEV
	}
	pb, lb, nb, e := x.walk(b, false)
	if e != 0 {
		return e
	}
	if nb == na {
		return 0
	}
	if nb != nil {
		if nb.dir != na.dir {
			if nb.dir {
				return eEXIST
			}
			return eNOTDIR
		}
		if nb.dir && len(nb.ents) > 0 {
			return eNOTEMPTY
		}
		pb.unlinkEnt(nb, x, lb)
		nb.nlink--
	}
	pa.unlinkEnt(na, x, la)
	pb.ents = append(pb.ents, dirEnt{lb, na})
	return 0
}

func (x *X) fsLink(a, b Value) uint64 {
	_, _, na, e := x.walk(a, false)
	if e != 0 {
		return e
	}
	if na == nil {
		return eNOENT
	}
	if na.dir {
		return 1
	}
	pb, lb, nb, e := x.walk(b, false)
	if e != 0 {
		return e
	}
	if nb != nil {
		return eEXIST
	}
	if len(x.fs.elsewhere) > 0 && x.device(a) != x.device(b) {
		return eXDEV
	}
	na.nlink++
	pb.ents = append(pb.ents, dirEnt{lb, na})
	return 0
}

func (x *X) sortedEnts(d *inode) []dirEnt {
	out := append([]dirEnt{}, d.ents...)
	conc := true
	for _, e := range out {
		if _, ok := e.name.(string); !ok {
			conc = false
		}
	}
	if conc {
		sort.SliceStable(out, func(i, j int) bool { return out[i].name.(string) < out[j].name.(string) })
		return out
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && x.truth(x.strLess(out[j].name, out[j-1].name, true)); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func strArg(v Value) Value { return v }

func (x *X) retErr(e uint64, mk func(uint64) Iface) Value {
	if e == 0 {
		return nilErr
	}
	return mk(e)
}

func (x *X) baseName(p Value) Value {
	if s, ok := p.(string); ok {
		return path.Base(s)
	}
	c, ok, _ := x.splitPath(p)
	if !ok || len(c) == 0 {
		return "/"
	}
	return c[len(c)-1]
}

func init() {
	reg := func(name string, f Intrinsic) { intrinsics[name] = f }

	stat := func(op string, follow bool) Intrinsic {
		return func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			_, _, n, e := x.walk(a[0], follow)
			if e == 0 && n == nil {
				e = eNOENT
			}
			if e != 0 {
				return Tuple{Iface{}, x.pathErr(op, a[0], e)}
			}
			return Tuple{x.fileInfo(x.baseName(a[0]), n), nilErr}
		}
	}
	reg("os.Stat", stat("stat", true))
	reg("os.Lstat", stat("lstat", false))
	open := func(op string) func(x *X, name Value, flag, perm uint64) Value {
		return func(x *X, name Value, flag, perm uint64) Value {
			of, e := x.openFileOp(name, flag, perm)
			if e != 0 {
				return Tuple{(*Value)(nil), x.pathErr(op, name, e)}
			}
			return Tuple{x.newFile(of), nilErr}
		}
	}("open")
	reg("os.Open", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return open(x, a[0], 0, 0) })
	reg("os.Create", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return open(x, a[0], oRDWR|oCREATE|oTRUNC, 0666)
	})
	reg("os.OpenFile", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return open(x, a[0], uint64(x.concInt(a[1])), uint64(x.concInt(a[2])))
	})
	reg("os.NewFile", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.newFile(&openFile{std: true, r: true, w: true, name: a[1], n: x.fs.newNode(false)})
	})
	reg("os.Remove", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.retErr(x.fsRemove(a[0]), func(e uint64) Iface { return x.pathErr("remove", a[0], e) })
	})
	reg("os.RemoveAll", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		parent, last, n, e := x.walk(a[0], false)
		if e == eNOENT || (e == 0 && n == nil) {
			return nilErr
		}
		if e != 0 || parent == nil {
			return x.pathErr("RemoveAll", a[0], eINVAL)
		}
		parent.unlinkEnt(n, x, last)
		var rec func(n *inode)
		rec = func(n *inode) {
			n.nlink--
			for _, c := range n.ents {
				rec(c.n)
			}
			n.ents = nil
		}
		rec(n)
		return nilErr
	})
	reg("os.Mkdir", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.retErr(x.fsMkdir(a[0]), func(e uint64) Iface { return x.pathErr("mkdir", a[0], e) })
	})
	reg("os.MkdirAll", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.retErr(x.fsMkdirAll(a[0]), func(e uint64) Iface { return x.pathErr("mkdir", a[0], e) })
	})
	reg("os.Rename", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.retErr(x.fsRename(a[0], a[1]), func(e uint64) Iface { return x.linkErr("rename", a[0], a[1], e) })
	})
	reg("os.Link", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		return x.retErr(x.fsLink(a[0], a[1]), func(e uint64) Iface { return x.linkErr("link", a[0], a[1], e) })
	})
	reg("os.Symlink", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, l, n, e := x.walk(a[1], false)
		if e == 0 && n != nil {
			e = eEXIST
		}
		if e != 0 {
			return x.linkErr("symlink", a[0], a[1], e)
		}
		nn := x.fs.newNode(false)
		nn.link = a[0]
		p.ents = append(p.ents, dirEnt{l, nn})
		return nilErr
	})
	okErr := func(op string) Intrinsic {
		return func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			_, _, n, e := x.walk(a[0], true)
			if e == 0 && n == nil {
				e = eNOENT
			}
			if e == 0 && op == "chmod" {
				n.mode = uint64(x.concInt(a[1])) & 0777
			}
			return x.retErr(e, func(e uint64) Iface { return x.pathErr(op, a[0], e) })
		}
	}
	reg("os.Chtimes", okErr("chtimes"))
	reg("os.Chown", okErr("chown"))
	reg("os.Lchown", okErr("lchown"))
	reg("os.Chmod", okErr("chmod"))
	reg("os.Truncate", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		_, _, n, e := x.walk(a[0], true)
		if e == 0 && n == nil {
			e = eNOENT
		}
		if e == 0 {
			truncNode(x, n, x.concInt(a[1]))
		}
		return x.retErr(e, func(e uint64) Iface { return x.pathErr("truncate", a[0], e) })
	})
	reg("os.ReadFile", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		d, e := x.fsRead(a[0])
		if e != 0 {
			return Tuple{[]Value(nil), x.pathErr("open", a[0], e)}
		}
		return Tuple{strBytes(d), nilErr}
	})
	reg("os.WriteFile", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		e := x.fsWrite(a[0], mkStr(a[1].([]Value)))
		return x.retErr(e, func(e uint64) Iface { return x.pathErr("open", a[0], e) })
	})
	reg("os.ReadDir", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		_, _, n, e := x.walk(a[0], true)
		if e == 0 && n == nil {
			e = eNOENT
		}
		if e == 0 && n.bad {
			e = eACCES
		}
		if e != 0 {
			return Tuple{[]Value(nil), x.pathErr("open", a[0], e)}
		}
		if !n.dir {
			return Tuple{[]Value(nil), x.pathErr("readdirent", a[0], eNOTDIR)}
		}
		return Tuple{x.dirEntries(a[0], x.sortedEnts(n)), nilErr}
	})
	reg("os.Getwd", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return Tuple{x.fs.cwd, nilErr} })
	reg("os.Chdir", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.fs.cwd = a[0].(string)
		return nilErr
	})
	reg("os.TempDir", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return "/tmp" })
	mktemp := func(x *X, dir, pat Value, isDir bool) (Value, *openFile, uint64) {
		if strLen(dir) == 0 {
			x.fsMkdirAll("/tmp")
			dir = "/tmp"
		}
		pre, suf := pat, Value("")
		if s, ok := pat.(string); ok {
			if i := strings.LastIndexByte(s, '*'); i >= 0 {
				pre, suf = s[:i], s[i+1:]
			}
		}
		for {
			x.ntemp++
			p := strCatAll(dir, "/", pre, fmt.Sprintf("%09d", x.ntemp), suf)
			_, _, n, e := x.walk(p, false)
			if e != 0 {
				return nil, nil, e
			}
			if n != nil {
				continue
			}
			if isDir {
				return p, nil, x.fsMkdir(p)
			}
			of, e := x.openFileOp(p, oRDWR|oCREATE|oEXCL, 0600)
			return p, of, e
		}
	}
	reg("os.MkdirTemp", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, _, e := mktemp(x, a[0], a[1], true)
		if e != 0 {
			return Tuple{"", x.pathErr("mkdirtemp", a[0], e)}
		}
		return Tuple{p, nilErr}
	})
	reg("os.CreateTemp", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		_, of, e := mktemp(x, a[0], a[1], false)
		if e != 0 {
			return Tuple{(*Value)(nil), x.pathErr("createtemp", a[0], e)}
		}
		return Tuple{x.newFile(of), nilErr}
	})
	for name, v := range map[string]uint64{"os.Getuid": 0, "os.Getgid": 0, "os.Geteuid": 0, "os.Getegid": 0} {
		v := v
		reg(name, func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return v })
	}
	reg("os.Getpid", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return uint64(x.pid) })
	reg("os.Getppid", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return uint64(1) })
	reg("os.Getenv", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return x.env[s]
		}
		return ""
	})
	reg("os.LookupEnv", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			v, ok := x.env[s]
			return Tuple{v, ok}
		}
		return Tuple{"", false}
	})
	reg("os.Setenv", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		x.env[a[0].(string)] = x.concStr(a[1])
		return nilErr
	})
	reg("os.Environ", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return []Value{} })
	reg("os.Exit", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		panic(pathEnd{"exit", "os.Exit"})
	})
	reg("os.Hostname", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return Tuple{"host", nilErr} })

	// *os.File methods
	fm := func(name string, f func(x *X, of *openFile, a []Value) Value) {
		reg("(*os.File)."+name, func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
			of := x.fileOf(a[0])
			if of == nil {
				// nil *File: every method reports os.ErrInvalid
				res := fn.Signature.Results()
				z := zero(res)
				inv := x.load(x.globalAddr(x.w.eng.pkg("os").Var("ErrInvalid")))
				if res.Len() == 1 {
					if types.IsInterface(res.At(0).Type()) {
						return inv
					}
					x.rtPanic("invalid memory address or nil pointer dereference")
				}
				z.(Tuple)[res.Len()-1] = inv
				return z
			}
			return f(x, of, a[1:])
		})
	}
	closedErr := func(x *X, of *openFile, op string) Iface {
		return x.pathErrIface(op, of.name, x.load(x.globalAddr(x.w.eng.pkg("os").Var("ErrClosed"))).(Iface))
	}
	eof := func(x *X) Iface { return x.load(x.globalAddr(x.w.eng.pkg("io").Var("EOF"))).(Iface) }
	fm("Close", func(x *X, of *openFile, a []Value) Value {
		if of.closed {
			return closedErr(x, of, "close")
		}
		of.closed = true
		delete(x.fs.fds, of.fd)
		delete(x.fs.flock[of.n], of)
		return nilErr
	})
	fm("Name", func(x *X, of *openFile, a []Value) Value { return of.name })
	fm("Fd", func(x *X, of *openFile, a []Value) Value { return of.fd })
	fm("Sync", func(x *X, of *openFile, a []Value) Value {
		if of.closed {
			return closedErr(x, of, "sync")
		}
		return nilErr
	})
	fm("Chmod", func(x *X, of *openFile, a []Value) Value { of.n.mode = uint64(x.concInt(a[0])) & 0777; return nilErr })
	fm("Chown", func(x *X, of *openFile, a []Value) Value { return nilErr })
	fm("SetDeadline", func(x *X, of *openFile, a []Value) Value { return nilErr })
	fm("Stat", func(x *X, of *openFile, a []Value) Value {
		if of.closed {
			return Tuple{Iface{}, closedErr(x, of, "stat")}
		}
		return Tuple{x.fileInfo(x.baseName(of.name), of.n), nilErr}
	})
	fm("Truncate", func(x *X, of *openFile, a []Value) Value {
		if of.closed {
			return closedErr(x, of, "truncate")
		}
		if !of.w {
			return x.pathErr("truncate", of.name, eINVAL)
		}
		truncNode(x, of.n, x.concInt(a[0]))
		return nilErr
	})
	fm("Seek", func(x *X, of *openFile, a []Value) Value {
		if of.closed {
			return Tuple{uint64(0), closedErr(x, of, "seek")}
		}
		o := x.concInt(a[0])
		switch x.concInt(a[1]) {
		case 1:
			o += of.off
		case 2:
			o += strLen(of.n.data)
		}
		if o < 0 {
			return Tuple{uint64(0), x.pathErr("seek", of.name, eINVAL)}
		}
		of.off = o
		of.dirpos = 0
		return Tuple{uint64(o), nilErr}
	})
	fm("Write", func(x *X, of *openFile, a []Value) Value {
		if of.closed {
			return Tuple{uint64(0), closedErr(x, of, "write")}
		}
		n, e := x.fileWrite(of, a[0].([]Value))
		return Tuple{uint64(n), x.retErr(e, func(e uint64) Iface { return x.pathErr("write", of.name, e) })}
	})
	fm("WriteString", func(x *X, of *openFile, a []Value) Value {
		if of.closed {
			return Tuple{uint64(0), closedErr(x, of, "write")}
		}
		n, e := x.fileWrite(of, strBytes(a[0]))
		return Tuple{uint64(n), x.retErr(e, func(e uint64) Iface { return x.pathErr("write", of.name, e) })}
	})
	fm("WriteAt", func(x *X, of *openFile, a []Value) Value {
		if of.closed {
			return Tuple{uint64(0), closedErr(x, of, "write")}
		}
		save := of.off
		of.off = x.concInt(a[1])
		n, e := x.fileWrite(of, a[0].([]Value))
		of.off = save
		return Tuple{uint64(n), x.retErr(e, func(e uint64) Iface { return x.pathErr("write", of.name, e) })}
	})
	read := func(x *X, of *openFile, buf []Value, off int) (int, Iface) {
		if of.closed {
			return 0, closedErr(x, of, "read")
		}
		if of.n.dir {
			return 0, x.pathErr("read", of.name, eISDIR)
		}
		if !of.r {
			return 0, x.pathErr("read", of.name, eBADF)
		}
		if len(buf) == 0 {
			return 0, nilErr
		}
		L := strLen(of.n.data)
		if off >= L {
			return 0, eof(x)
		}
		n := min(len(buf), L-off)
		for i := 0; i < n; i++ {
			buf[i] = strByte(of.n.data, off+i)
		}
		return n, nilErr
	}
	fm("Read", func(x *X, of *openFile, a []Value) Value {
		n, e := read(x, of, a[0].([]Value), of.off)
		of.off += n
		return Tuple{uint64(n), e}
	})
	fm("ReadAt", func(x *X, of *openFile, a []Value) Value {
		buf := a[0].([]Value)
		n, e := read(x, of, buf, x.concInt(a[1]))
		if n < len(buf) && e.T == nil {
			e = eof(x)
		}
		return Tuple{uint64(n), e}
	})
	fm("ReadFrom", func(x *X, of *openFile, a []Value) Value {
		// io.Copy into a file: drain the reader
		r := a[0].(Iface)
		total := 0
		if src := x.fileOf(r.V); src != nil {
			if src.closed {
				return Tuple{uint64(0), closedErr(x, src, "read")}
			}
			d := src.n.data
			if src.n.dir {
				return Tuple{uint64(0), x.pathErr("read", src.name, eISDIR)}
			}
			chunk := strSlice(d, min(src.off, strLen(d)), strLen(d))
			src.off = max(src.off, strLen(d))
			n, e := x.fileWrite(of, strBytes(chunk))
			return Tuple{uint64(n), x.retErr(e, func(e uint64) Iface { return x.pathErr("write", of.name, e) })}
		}
		for {
			buf := make([]Value, 512)
			for i := range buf {
				buf[i] = uint64(0)
			}
			t := x.callMethod(x.cur.fr, r, "Read", buf).(Tuple)
			n := x.concInt(t[0])
			if n > 0 {
				w, e := x.fileWrite(of, buf[:n])
				total += w
				if e != 0 {
					return Tuple{uint64(total), x.pathErr("write", of.name, e)}
				}
			}
			if err := t[1].(Iface); err.T != nil {
				if x.truth(x.equal(errorType(x), err, eof(x))) {
					return Tuple{uint64(total), nilErr}
				}
				return Tuple{uint64(total), err}
			}
		}
	})
	fm("WriteTo", func(x *X, of *openFile, a []Value) Value {
		d := of.n.data
		if of.closed {
			return Tuple{uint64(0), closedErr(x, of, "read")}
		}
		chunk := strSlice(d, min(of.off, strLen(d)), strLen(d))
		of.off = strLen(d)
		if strLen(chunk) == 0 {
			return Tuple{uint64(0), nilErr}
		}
		t := x.callMethod(x.cur.fr, a[0].(Iface), "Write", strBytes(chunk)).(Tuple)
		return Tuple{t[0], t[1]}
	})
	rd := func(x *X, of *openFile, n int) ([]dirEnt, Iface) {
		if of.closed {
			return nil, closedErr(x, of, "readdir")
		}
		if !of.n.dir {
			return nil, x.pathErr("readdirent", of.name, eNOTDIR)
		}
		ents := x.sortedEnts(of.n)
		ents = ents[min(of.dirpos, len(ents)):]
		if n > 0 {
			if len(ents) == 0 {
				return nil, eof(x)
			}
			if len(ents) > n {
				ents = ents[:n]
			}
		}
		of.dirpos += len(ents)
		return ents, nilErr
	}
	fm("Readdirnames", func(x *X, of *openFile, a []Value) Value {
		ents, e := rd(x, of, x.concInt(a[0]))
		out := []Value{}
		for _, d := range ents {
			out = append(out, d.name)
		}
		return Tuple{out, e}
	})
	fm("Readdir", func(x *X, of *openFile, a []Value) Value {
		ents, e := rd(x, of, x.concInt(a[0]))
		out := []Value{}
		for _, d := range ents {
			out = append(out, x.fileInfo(d.name, d.n))
		}
		return Tuple{out, e}
	})
	fm("ReadDir", func(x *X, of *openFile, a []Value) Value {
		ents, e := rd(x, of, x.concInt(a[0]))
		return Tuple{x.dirEntries(of.name, ents), e}
	})

	// syscalls used directly
	reg("syscall.Mmap", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		of := x.fs.fds[uint64(x.concInt(a[0]))]
		n := x.concInt(a[2])
		if of == nil {
			return Tuple{[]Value(nil), x.errnoIface(eBADF)}
		}
		if n <= 0 || n > strLen(of.n.data) {
			return Tuple{[]Value(nil), x.errnoIface(eINVAL)}
		}
		return Tuple{strBytes(of.n.data)[:n], nilErr}
	})
	reg("syscall.Munmap", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value { return nilErr })
	reg("syscall.Flock", func(x *X, fr *Frame, fn *ssa.Function, a []Value) Value {
		of := x.fs.fds[uint64(x.concInt(a[0]))]
		how := x.concInt(a[1])
		if of == nil {
			return x.errnoIface(eBADF)
		}
		if how&8 != 0 { // LOCK_UN
			delete(x.fs.flock[of.n], of)
			return nilErr
		}
		free := func() bool {
			for h, ex := range x.fs.flock[of.n] {
				if h != of && (ex || how&2 != 0) {
					return false
				}
			}
			return true
		}
		if !free() {
			if how&4 != 0 {
				return x.errnoIface(eAGAIN)
			}
			x.waitUntil(free)
		}
		if x.fs.flock[of.n] == nil {
			x.fs.flock[of.n] = map[*openFile]bool{}
		}
		x.fs.flock[of.n][of] = how&2 != 0
		return nilErr
	})
}

func truncNode(x *X, n *inode, sz int) {
	L := strLen(n.data)
	if sz <= L {
		n.data = strSlice(n.data, 0, sz)
	} else {
		n.data = strCat(n.data, strings.Repeat("\x00", sz-L))
	}
	n.mtime = x.tick()
}

func errorType(x *X) types.Type { return types.Universe.Lookup("error").Type() }

func (x *X) dirEntries(parent Value, ents []dirEnt) []Value {
	t := x.w.eng.typeByName("os", "unixDirent")
	st := t.Underlying().(*types.Struct)
	out := []Value{}
	for _, d := range ents {
		s := zero(t).(Struct)
		x.setField(s, st, "parent", parent)
		x.setField(s, st, "name", d.name)
		m := uint64(0)
		if d.n.dir {
			m = modeDir
		}
		if d.n.link != nil {
			m = modeSymlink
		}
		x.setField(s, st, "typ", m)
		x.setField(s, st, "info", x.fileInfo(d.name, d.n))
		p := new(Value)
		*p = s
		out = append(out, Iface{T: x.w.eng.ptrTo(t), V: p})
	}
	return out
}
