package vharness

import (
	"archive/zip"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HMalformed", HMalformed)
	add("HMalformedAssets", HMalformedAssets)
	add("HSameID", HSameID)
	add("HMalformedDelta", HMalformedDelta)
}

// metaParts is a metadata file in pieces, so that some can be left out.
type metaParts struct {
	source, name, texts, history, rest, inner string
}

func (m metaParts) String() string {
	return "<PISI>" + m.source + "<Package>" + m.name + m.texts + m.history + m.rest + m.inner + "</Package></PISI>"
}

func goodMeta(name, release string) metaParts {
	return metaParts{
		source:  "<Source><Name>" + name + "</Name><Packager><Name>P</Name><Email>p@x</Email></Packager></Source>",
		name:    "<Name>" + name + "</Name>",
		texts:   "<Summary xml:lang=\"en\">S</Summary><Description xml:lang=\"en\">D</Description>",
		history: "<History><Update release=\"" + release + "\"><Date>2020-01-01</Date><Version>1</Version><Comment>c</Comment><Name>P</Name><Email>p@x</Email></Update></History>",
		rest:    "<PartOf>c</PartOf><License>L</License><BuildHost>h</BuildHost><Distribution>Solus</Distribution><DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><InstalledSize>10</InstalledSize><PackageFormat>1.2</PackageFormat>",
		inner:   "<Source><Name>" + name + "</Name><Packager><Name>P</Name><Email>p@x</Email></Packager></Source>",
	}
}

// badMeta is one of many incomplete or odd metadata files.
func badMeta(name string) string {
	m := goodMeta(name, "5")
	switch sym.Choose("metadata", 26) {
	case 0:
		m.source = ""
	case 1:
		m.inner = ""
	case 2:
		m.inner = "<Source></Source>"
	case 3:
		m.inner = "<Source><Name></Name></Source>"
	case 4:
		m.name = ""
	case 5:
		m.texts = ""
	case 6:
		m.texts = "<Summary xml:lang=\"en\">S</Summary>"
	case 7:
		m.texts = "<Summary></Summary><Description></Description>"
	case 8:
		m.history = ""
	case 9:
		m.history = "<History></History>"
	case 10:
		m.history = "<History><Update></Update></History>"
	case 11:
		m.history = "<History><Update release=\"" + sym.Chars("release", "09-x", 1+sym.Choose("release length", 2)) + "\"><Version>1</Version></Update></History>"
	case 12:
		m.history = "<History><Update release=\"99999999999999999999\"><Version>1</Version></Update></History>"
	case 13:
		m.rest = ""
	case 14:
		m.rest = "<InstalledSize>" + sym.Chars("size", "0a-", 1) + "</InstalledSize>"
	case 15:
		return ""
	case 16:
		return "<PISI></PISI>"
	case 17:
		return "<PISI><Package></Package></PISI>"
	case 18:
		return m.String()[:sym.Int("cut", 1, 100)]
	case 19:
		s := m.String()
		return s[:len(s)-sym.Int("cut", 1, 100)]
	case 20:
		return "<Other>" + m.String() + "</Other>"
	case 21:
		return m.String() + m.String()
	case 22:
		return "metadata"
	case 23:
		m.rest += "<History><Update release=\"3\"><Version>0</Version></Update></History>"
	case 24:
		m.rest += "<DeltaPackages><Delta releaseFrom=\"1\"></Delta></DeltaPackages><RuntimeDependencies></RuntimeDependencies><Conflicts></Conflicts><Provides></Provides>"
	case 25:
		m.rest += "<Name>again</Name><PackageURI>../../x</PackageURI>"
	}
	return m.String()
}

// HMalformed: C28, any package file is imported or refused.
func HMalformed() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	f1 := w.pkg("foo-1.eopkg", "foo", "foo", "1", 1)
	f2 := w.pkg("foo-2.eopkg", "foo", "foo", "2", 2)
	must(w.add("a", false, f1, f2))
	path := filepath.Join(w.Root, "in", "new-5.eopkg")
	name := []string{"foo", "other"}[sym.Choose("name", 2)]
	good := false
	switch sym.Choose("archive", 7) {
	case 0:
		good = true
		zipFile(path, "metadata.xml", goodMeta(name, "5").String(), "files.xml", "x")
	case 1:
		must(os.WriteFile(path, []byte(sym.String("data", 2)), 0644))
	case 2:
		must(os.WriteFile(path, nil, 0644))
	case 3:
		zipFile(path)
	case 4:
		zipFile(path, "metadata.xml.old", goodMeta(name, "5").String(), "files.xml", "x")
	case 5:
		path = []string{w.Root, filepath.Join(w.Root, "nothing"), ""}[sym.Choose("path", 3)]
	case 6:
		zipFile(path, "files.xml", "x", "metadata.xml", badMeta(name))
	}
	pre := w.snap()
	before := files(filepath.Join(w.Base, "pool"))
	var err error
	op := sym.Choose("import", 3)
	switch op {
	case 0, 1:
		err = w.M.AddPackages("a", []string{path}, op == 1)
	case 2:
		err = w.M.AddDelta("a", path, &core.DeltaInformation{FromID: f1.ID, ToID: f2.ID})
	}
	post := w.snap()
	if err != nil {
		sym.Assert(!good || (op == 2 && name == "other"), "a complete package is accepted")
		expectSame(pre, post, "a refused package")
		sym.Assert(sameSet(before, files(filepath.Join(w.Base, "pool"))), "a refused package leaves nothing in the pool")
		sym.Reach("refused")
	} else {
		e := post.pool("new-5.eopkg")
		sym.Assert(e != nil && e.RefCount == 1, "an accepted package is in the pool")
		sym.Assert(has(append(post.repo("a").available(), post.repo("a").deltas()...), "new-5.eopkg"), "an accepted package is listed")
		sym.Reach("accepted")
	}
	sym.Assert(w.M.Index("a") == nil, "the repository can be indexed afterwards")
	_, e := w.M.GetPackages("a", name)
	sym.Assert(e == nil || name == "other", "the repository can be read afterwards")
	sym.Assert(w.M.TrimPackages("a", 1) == nil, "the repository can be trimmed afterwards")
	sym.Assert(w.M.CloneRepo("a", "c", true) == nil, "the repository can be cloned afterwards")
	sym.Assert(w.M.DeleteRepo("a") == nil && w.M.DeleteRepo("c") == nil, "the repositories can be deleted afterwards")
	sym.Assert(len(files(filepath.Join(w.Base, "pool"))) == 0, "deleting all repositories empties the pool")
}

// HMalformedAssets: C28, any asset file is used or refused.
func HMalformedAssets() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	f1 := w.pkg("foo-1.eopkg", "foo", "foo", "1", 1)
	must(w.add("a", false, f1))
	must(os.MkdirAll(w.assetDir("a"), 0755))
	index := filepath.Join(w.repoDir("a"), "eopkg-index.xml")
	before := content(index)
	kind := sym.Choose("asset", 3)
	name := []string{"distribution.xml", "components.xml", "groups.xml"}[kind]
	text := ""
	switch kind {
	case 0:
		text = []string{"<PISI></PISI>", "<PISI><Obsoletes></Obsoletes></PISI>", "<PISI><Obsoletes><Package></Package></Obsoletes></PISI>",
			"<PISI><SourceName></SourceName><Description></Description><Obsoletes><Package>-dbginfo</Package></Obsoletes></PISI>"}[sym.Choose("content", 4)]
	case 1:
		c := "<Name>n</Name><LocalName>L</LocalName><Summary>S</Summary><Description>D</Description><Group>g</Group>"
		switch sym.Choose("content", 6) {
		case 0:
			c = ""
		case 1:
			c = "<Name>n</Name>"
		case 2:
			c = strings.Replace(c, "<LocalName>L</LocalName>", "", 1)
		case 3:
			c = strings.Replace(c, "<Summary>S</Summary>", "", 1)
		case 4:
			c = strings.Replace(c, "<Description>D</Description>", "<Description/>", 1)
		case 5:
			c = strings.Replace(c, "<Description>D</Description>", "", 1)
		}
		text = "<PISI><Components><Component>" + c + "</Component></Components></PISI>"
	case 2:
		c := []string{"", "<Name>n</Name>", "<Name>n</Name><LocalName/>", "<LocalName xml:lang=\"de\">L</LocalName>"}[sym.Choose("content", 4)]
		text = "<PISI><Groups><Group>" + c + "</Group></Groups></PISI>"
	}
	switch sym.Choose("damage", 5) {
	case 1:
		text = text[:sym.Int("cut", 0, len(text))]
	case 2:
		text = strings.Replace(text, "PISI>", "Other>", 2)
	case 3:
		text += text
	case 4:
		text = []string{"", "<", "x", "\x00", "<a", "\xff", "<PISI", "&"}[sym.Choose("data", 8)]
	}
	must(os.WriteFile(filepath.Join(w.assetDir("a"), name), []byte(text), 0644))
	pre := w.snap()
	if err := w.M.Index("a"); err != nil {
		sym.Assert(content(index) == before, "if the assets cannot be used the published index stays")
		sym.Reach("refused")
	} else {
		x := readIndex(index)
		sym.Assert(len(x.Package) == 1, "the packages stay in the index")
		sym.Reach("indexed")
	}
	w.sumsMatch("a")
	expectSame(pre, w.snap(), "indexing")
	if kind == 0 && sym.Choose("trim", 2) == 1 {
		w.M.TrimObsolete("a")
		p := w.snap()
		sym.Assert(len(p.repo("a").Entries) == 1, "nothing is obsolete")
	}
}

// HSameID: C28, a different package under the ID of a known one.
func HSameID() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	must(w.M.CreateRepo("b"))
	f1 := w.pkg("foo-1.eopkg", "foo", "foo", "1", 1)
	must(w.add("a", false, f1))
	m := goodMeta([]string{"foo", "bar"}[sym.Choose("source", 2)], []string{"1", "2"}[sym.Choose("release", 2)])
	m.name = "<Name>" + []string{"foo", "bar"}[sym.Choose("name", 2)] + "</Name>"
	path := filepath.Join(w.Root, "in", "other", f1.ID)
	must(os.MkdirAll(filepath.Dir(path), 0755))
	data := zipFile(path, "metadata.xml", m.String())
	pre := w.snap()
	target := []string{"a", "b"}[sym.Choose("target", 2)]
	err := w.M.AddPackages(target, []string{path}, sym.Choose("strict", 2) == 1)
	post := w.snap()
	if err != nil || target == "a" {
		expectSame(pre, post, "a package under the ID of another")
		sym.Reach("refused")
	} else {
		sym.Assert(has(post.repo("b").available(), f1.ID), "an accepted package is listed")
		sym.Assert(content(filepath.Join(w.repoDir("b"), directory("foo"), f1.ID)) == string(data), "an accepted package has the imported bytes")
	}
	w.checkFiles(post)
	w.checkRefs(post)
	w.checkTips(post)
}

// HMalformedDelta: C28, a delta between two packages one of which has missing
// or damaged members.
func HMalformedDelta() {
	root := sym.Root()
	src := []item{{"usr/bin/a", "aa", "old", 'f'}, {"usr/bin/b", "bb", "same", 'f'}}
	dst := []item{{"usr/bin/a", "cc", "new", 'f'}, {"usr/bin/b", "bb", "same", 'f'}}
	po, pn := filepath.Join(root, "old.eopkg"), filepath.Join(root, "new.eopkg")
	eopkg(po, deltaMeta("p", "1", "1", "x86_64"), nil, src)
	eopkg(pn, deltaMeta("p", "2", "1", "x86_64"), nil, dst)
	which := sym.Choose("which", 2)
	p := []string{po, pn}[which]
	kind := sym.Choose("damage", 5)
	member := []string{"metadata.xml", "files.xml", "install.tar.xz"}[sym.Choose("member", 3)]
	var ms []string
	for _, m := range zipMembers(p) {
		if m[0] == member {
			switch kind {
			case 1:
				continue // missing
			case 2:
				m[1] = ""
			case 3:
				switch member {
				case "metadata.xml":
					m[1] = badMeta("p")
				case "files.xml":
					m[1] = []string{"<Files></Files>", "<Files><File></File></Files>", "<Files><File><Path></Path></File><File><Hash>bb</Hash></File></Files>",
						"<Files><File><Path>usr/bin/z</Path><Hash>bb</Hash></File></Files>", "<Other></Other>", "<Files><File><Path>/usr/bin/a</Path></File></Files>"}[sym.Choose("list", 6)]
				default:
					m[1] = "not compressed"
				}
			case 4: // twice
				ms = append(ms, m[0], m[1])
			}
		}
		ms = append(ms, m[0], m[1])
	}
	if kind == 0 {
		switch member {
		case "metadata.xml":
			must(os.Remove(p))
		case "files.xml":
			must(os.WriteFile(p, nil, 0644))
		default:
			must(os.WriteFile(p, []byte("not an archive"), 0644))
		}
	} else {
		must(os.Remove(p))
		zipFile(p, ms...)
	}
	before := content(po) + content(pn)
	work := filepath.Join(root, "work")
	d, err := libeopkg.NewDeltaProducer(work, po, pn)
	if err == nil {
		_, err = d.Commit()
		d.Close()
	}
	if err != nil {
		sym.Reach("refused")
	} else {
		sym.Reach("accepted")
	}
	complete := kind == 4 || kind != 0 && which == 0 && member == "install.tar.xz"
	sym.Assert(complete || kind == 3 || err != nil, "no delta is made of packages that lack something it needs")
	sym.Assert(content(po)+content(pn) == before, "the packages are left alone")
	sym.Assert(len(files(work)) == 0, "nothing is left in the working directory")
}

// zipMembers reads an archive.
func zipMembers(path string) (out [][2]string) {
	z, err := zip.OpenReader(path)
	must(err)
	defer z.Close()
	for _, f := range z.File {
		r, err := f.Open()
		must(err)
		b, err := io.ReadAll(r)
		must(err)
		r.Close()
		out = append(out, [2]string{f.Name, string(b)})
	}
	return
}
