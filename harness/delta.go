package vharness

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HDelta", HDelta)
	add("HDeltaPair", HDeltaPair)
	add("HDeltaLarge", HDeltaLarge)
}

// item is one entry of a package: what files.xml says and what the archive has.
type item struct {
	path, hash, content string
	kind                byte // f, d or l
}

func (i item) header() *tar.Header {
	h := &tar.Header{Name: i.path, Typeflag: tar.TypeReg, Mode: 0644, Size: int64(len(i.content)), Format: tar.FormatUSTAR}
	switch i.kind {
	case 'd':
		h = &tar.Header{Name: i.path + "/", Typeflag: tar.TypeDir, Mode: 0755, Format: tar.FormatUSTAR}
	case 'l':
		h = &tar.Header{Name: i.path, Typeflag: tar.TypeSymlink, Linkname: i.content, Mode: 0777, Format: tar.FormatUSTAR}
	}
	return h
}

// eopkg writes a package with the given entries; plain are archive entries
// that files.xml does not mention.
func eopkg(path, meta string, plain []string, items []item) {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, p := range plain {
		must(w.WriteHeader(item{path: p, kind: 'd'}.header()))
	}
	xml := "<Files>"
	for _, i := range items {
		h := i.header()
		must(w.WriteHeader(h))
		if i.kind == 'f' {
			_, err := w.Write([]byte(i.content))
			must(err)
		}
		xml += "<File><Path>" + i.path + "</Path><Type>data</Type><Uid>0</Uid><Gid>0</Gid><Mode>0644</Mode>"
		if i.hash != "" {
			xml += "<Hash>" + i.hash + "</Hash>"
		}
		xml += "</File>"
	}
	must(w.Close())
	xml += "</Files>"
	t := path + ".tar"
	must(os.WriteFile(t, b.Bytes(), 0644))
	must(libeopkg.XzFile(t, false))
	ball, err := os.ReadFile(t + ".xz")
	must(err)
	must(os.Remove(t + ".xz"))
	zipFile(path, "metadata.xml", meta, "files.xml", xml, "comar/package.py", "script", "install.tar.xz", string(ball))
}

// unpack reads a package: its members besides the payload, and the payload.
func unpack(path, tmp string) (members map[string]string, entries []string, payload bool) {
	members = map[string]string{}
	z, err := zip.OpenReader(path)
	must(err)
	defer z.Close()
	for _, f := range z.File {
		r, err := f.Open()
		must(err)
		b, err := io.ReadAll(r)
		must(err)
		r.Close()
		if f.Name != "install.tar.xz" {
			_, dup := members[f.Name]
			sym.Assert(!dup, "every member occurs once")
			members[f.Name] = string(b)
			continue
		}
		sym.Assert(!payload, "every member occurs once")
		payload = true
		must(os.WriteFile(tmp+".xz", b, 0644))
		must(libeopkg.UnxzFile(tmp+".xz", false))
		fi, err := os.Open(tmp)
		must(err)
		t := tar.NewReader(fi)
		for {
			h, err := t.Next()
			if err == io.EOF {
				break
			}
			sym.Assert(err == nil, "the payload of a delta can be read")
			c, err := io.ReadAll(t)
			sym.Assert(err == nil, "the payload of a delta can be read")
			entries = append(entries, show(h, string(c)))
		}
		fi.Close()
		os.Remove(tmp)
	}
	sort.Strings(entries)
	return
}

func show(h *tar.Header, content string) string {
	return strings.TrimSuffix(h.Name, "/") + " " + string(rune(h.Typeflag)) + " " + strconv.Itoa(int(h.Mode)) + " " + h.Linkname + " " + content
}

func deltaMeta(name, release, dist, arch string) string {
	s := metadataXML(name, name, "1."+release, release)
	s = strings.Replace(s, "<DistributionRelease>1<", "<DistributionRelease>"+dist+"<", 1)
	return strings.Replace(s, "<Architecture>x86_64<", "<Architecture>"+arch+"<", 1)
}

// HDelta: C25, what a delta between two versions contains.
func HDelta() {
	root := sym.Root()
	if sym.Choose("map order", 2) == 1 {
		sym.MapOrder(true)
	}
	paths := []string{"usr/bin/a", "usr/bin/ab", "usr/lib", "etc/x"}
	max := 2
	if sym.Tier() > 0 {
		max = 3
	}
	list := func(label string, off int) (out []item) {
		n := 1 + sym.Choose(label+" entries", max)
		for i := 0; i < n; i++ {
			l := label + strconv.Itoa(i)
			it := item{path: paths[i+off], kind: "dfl"[sym.Choose(l+" kind", 3-i%2)]}
			if it.kind != 'd' {
				it.hash = sym.Chars(l+" hash", "0123456789abcdef", 1+sym.Choose(l+" length", 2)*(1-i))
				it.content = "content " + l
			}
			out = append(out, it)
		}
		return
	}
	old, new := list("old", sym.Choose("shift", 2)), list("new", 0)
	plain := []string{"usr", "usr/bin"}[:sym.Choose("unlisted", 2)*2]
	po, pn := filepath.Join(root, "old.eopkg"), filepath.Join(root, "new.eopkg")
	eopkg(po, deltaMeta("p", "1", "1", "x86_64"), plain, old)
	eopkg(pn, deltaMeta("p", "2", "1", "x86_64"), plain, new)
	before := content(po) + content(pn)

	work := filepath.Join(root, "work")
	p, err := libeopkg.NewDeltaProducer(work, po, pn)
	sym.Assert(err == nil, "two versions of one package can be compared")
	out, err := p.Commit()

	var want []string
	for _, n := range new {
		found := false
		for _, o := range old {
			found = found || o.hash == n.hash
		}
		if n.hash == "" || !found {
			want = append(want, show(n.header(), map[bool]string{true: n.content}[n.kind == 'f']))
		}
	}
	sort.Strings(want)
	if len(want) == len(new) {
		sym.Assert(err == libeopkg.ErrDeltaPointless, "a delta with everything in it is refused as pointless")
		sym.Reach("pointless")
	} else {
		sym.Assert(err == nil, "a useful delta is produced")
		m, got, payload := unpack(out, filepath.Join(root, "payload.tar"))
		om, _, _ := unpack(pn, filepath.Join(root, "payload.tar"))
		sym.Assert(len(m) == len(om), "a delta has the metadata of the new version")
		for k, v := range om {
			sym.Assert(m[k] == v, "a delta has the metadata of the new version")
		}
		sym.Assert(sameSet(got, want), "a delta has exactly the entries the old version cannot supply, unmodified")
		sym.Assert(payload == (len(want) > 0), "a delta has a payload when there is something to supply")
		if len(want) == 0 {
			sym.Reach("empty")
		} else {
			sym.Reach("partial")
		}
	}
	p.Close()
	sym.Assert(content(po)+content(pn) == before, "the packages are left alone")
	sym.Assert(len(files(work)) == 0, "nothing is left in the working directory")
}

// HDeltaLarge: C25, large files and long paths.
func HDeltaLarge() {
	root := sym.Root()
	same := item{path: "usr/a", kind: 'f', hash: "1", content: "content"}
	other := item{path: "usr/b", kind: 'f', hash: "2", content: large("other")}
	for i := sym.Choose("long path", 3); i > 0; i-- {
		other.path += "/" + strings.Repeat("d", 90)
	}
	po, pn := filepath.Join(root, "old.eopkg"), filepath.Join(root, "new.eopkg")
	eopkg(po, deltaMeta("p", "1", "1", "x86_64"), nil, []item{same})
	eopkg(pn, deltaMeta("p", "2", "1", "x86_64"), nil, []item{same, other})
	p, err := libeopkg.NewDeltaProducer(filepath.Join(root, "work"), po, pn)
	must(err)
	out, err := p.Commit()
	sym.Assert(err == nil, "a useful delta is produced")
	_, got, _ := unpack(out, filepath.Join(root, "payload.tar"))
	sym.Assert(sameSet(got, []string{show(other.header(), other.content)}), "a delta has exactly the entries the old version cannot supply, unmodified")
	p.Close()
	sym.Reach("partial")
}

// HDeltaPair: C25, which packages a delta is refused between.
func HDeltaPair() {
	root := sym.Root()
	mk := func(l string, other int) (path string, f [3]int, rel int) {
		for i, k := range []string{"name", "distribution", "architecture"} {
			if other == i {
				f[i] = sym.Choose(k, 3)
			}
		}
		top := 1200
		if sym.Tier() > 0 {
			top = 1<<31 - 1
		}
		rel = sym.Int(l+" release", 0, top)
		path = filepath.Join(root, l)
		its := []item{{path: "a", hash: "h", kind: 'f', content: "c"}}
		if l == "new" {
			its = append(its, item{path: "b", hash: "i", kind: 'f', content: "d"})
		}
		eopkg(path, deltaMeta([]string{"p", "q", "P"}[f[0]], strconv.Itoa(rel), []string{"1", "2", "11"}[f[1]], []string{"x86_64", "i686", "x86"}[f[2]]), nil, its)
		return
	}
	po, fo, ro := mk("old", -1)
	pn, fn, rn := mk("new", sym.Choose("difference", 4))
	p, err := libeopkg.NewDeltaProducer(filepath.Join(root, "work"), po, pn)
	if sym.And(fo == fn, ro < rn) {
		sym.Assert(err == nil, "a delta is possible between two versions of one package")
		out, err := p.Commit()
		sym.Assert(err == nil, "a useful delta is produced")
		o, e := libeopkg.Open(po)
		must(e)
		n, e := libeopkg.Open(pn)
		must(e)
		must(o.ReadMetadata())
		must(n.ReadMetadata())
		sym.Assert(filepath.Base(out) == libeopkg.ComputeDeltaName(&o.Meta.Package, &n.Meta.Package), "a delta has its documented name")
		o.Close()
		n.Close()
		p.Close()
		sym.Reach("possible")
		return
	}
	sym.Assert(err == libeopkg.ErrMismatchedDelta, "a delta between mismatched packages is refused")
	sym.Assert(len(files(filepath.Join(root, "work"))) == 0, "nothing is left in the working directory")
	sym.Reach("mismatched")
}
