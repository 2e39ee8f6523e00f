package vharness

import (
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"encoding/xml"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HIndex", HIndex)
	add("HIndexAssets", HIndexAssets)
}

type idxDelta struct {
	ReleaseFrom int `xml:"releaseFrom,attr"`
	PackageURI  string
	PackageSize int64
	PackageHash string
}

type idxPackage struct {
	Name    string
	History []struct {
		Release int `xml:"release,attr"`
		Version string
	} `xml:"History>Update"`
	PackageURI    string
	PackageSize   int64
	PackageHash   string
	DeltaPackages []idxDelta `xml:"DeltaPackages>Delta"`
	Source        struct{ Name string }
}

type idxNamed struct {
	Name string
}

type index struct {
	Distribution []struct {
		SourceName string
		Obsoletes  []string `xml:"Obsoletes>Package"`
	}
	Package   []idxPackage
	Component []idxNamed
	Group     []idxNamed
}

func readIndex(path string) *index {
	b, err := os.ReadFile(path)
	sym.Assert(err == nil, "an index is published")
	x := &index{}
	sym.Assert(xml.Unmarshal(b, x) == nil, "the published index is well formed")
	return x
}

func sha1hex(b []byte) string {
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:])
}

func sha256hex(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

// sumsMatch: every checksum file agrees with the file it is about.
func (w *World) sumsMatch(repo string) {
	for _, n := range []string{"eopkg-index.xml", "eopkg-index.xml.xz", "eopkg-index.xml.zst"} {
		p := filepath.Join(w.repoDir(repo), n)
		b, err := os.ReadFile(p)
		sym.Assert(err == nil, "the index and its compressed forms are published")
		sym.Assert(content(p+".sha1sum") == sha1hex(b), "the published SHA-1 sums match")
		sym.Assert(content(p+".sha256sum") == sha256hex(b), "the published SHA-256 sums match")
	}
}

// checkIndex asserts that the published index of a repository is exactly what
// its listing calls for.
func (w *World) checkIndex(r *RepoSnap, obs []string) *index {
	x := readIndex(filepath.Join(w.repoDir(r.ID), "eopkg-index.xml"))
	var want []string
	for _, e := range r.Entries {
		if !obsolete(obs, e.Name) {
			want = append(want, e.Published)
		}
	}
	sort.Strings(want)
	sym.Assert(len(x.Package) == len(want), "the index has one entry per published name that is not obsolete")
	for i, id := range want {
		p, g := w.byID(id), &x.Package[i]
		sym.Assert(g.PackageURI == w.uri(p), "the index lists the published versions in order of their IDs, with their location")
		sym.Assert(g.Name == p.Name && g.Source.Name == p.Source, "an index entry names its package and source")
		sym.Assert(len(g.History) == 1 && g.History[0].Release == p.Release && g.History[0].Version == p.Version, "an index entry carries the release and version")
		sym.Assert(content(filepath.Join(w.repoDir(r.ID), g.PackageURI)) == string(p.Data), "the location in the index is that of the published file")
		sym.Assert(g.PackageSize == int64(len(p.Data)), "the size in the index is that of the file")
		sym.Assert(g.PackageHash == sha1hex(p.Data), "the hash in the index is that of the file")
		var ds []*Pkg
		for _, d := range r.entry(p.Name).Deltas {
			if w.byID(w.byID(d).To).Release == p.Release {
				ds = append(ds, w.byID(d))
			}
		}
		sym.Assert(len(ds) == len(g.DeltaPackages), "an index entry has exactly the deltas to its release")
		for _, d := range ds {
			var f *idxDelta
			for j := range g.DeltaPackages {
				if g.DeltaPackages[j].PackageURI == w.uri(d) {
					f = &g.DeltaPackages[j]
				}
			}
			sym.Assert(f != nil, "a delta to the published release is listed with its location")
			sym.Assert(f.ReleaseFrom == w.byID(d.From).Release, "a delta carries the release it starts from")
			sym.Assert(f.PackageSize == int64(len(d.Data)) && f.PackageHash == sha1hex(d.Data), "a delta carries its size and hash")
			sym.Assert(content(filepath.Join(w.repoDir(r.ID), f.PackageURI)) == string(d.Data), "a delta's location is that of its file")
			sym.Reach("delta")
		}
	}
	return x
}

// uri is the relative location of a package.
func (w *World) uri(p *Pkg) string {
	s := strings.ToLower(p.Source)
	if strings.HasPrefix(s, "lib") && len(s) > 3 {
		return s[:4] + "/" + s + "/" + p.ID
	}
	return s[:1] + "/" + s + "/" + p.ID
}

// HIndex: C12, the published index of any small repository (symbolic releases,
// several names, deltas to several releases, obsolete names and dependencies
// on them) is parsed again and compared entry by entry with the files on disk;
// a second run after a change as well.
func HIndex() {
	s := newScene(false)
	f13 := s.delta("foo-1-3.delta.eopkg", s.f1, s.f3)
	lib := s.pkg("libx-4.eopkg", "foo-dbginfo-x", "libXext", "4", 2)
	// it needs packages that may be obsolete or missing, and claims to be elsewhere
	lib.Data = zipFile(lib.Path, "metadata.xml", strings.Replace(metadataXML("foo-dbginfo-x", "libXext", "4", "2"), "<History>",
		"<RuntimeDependencies><Dependency>bar</Dependency><Dependency releaseFrom=\"1\">foo</Dependency><Dependency>zoo</Dependency></RuntimeDependencies><PackageSize>7</PackageSize><PackageHash>00</PackageHash><PackageURI>elsewhere</PackageURI>"+
			"<DeltaPackages><Delta releaseFrom=\"1\"><PackageURI>none</PackageURI></Delta></DeltaPackages><History>", 1), "id", lib.ID)
	if sym.Choose("later", 2) == 1 {
		// the newest version is only known elsewhere
		s.fill("b", s.f3)
		s.state("a", set(s.f1, s.f2, f13), set(s.f1, s.f2, s.d, f13))
	} else {
		s.state("a", set(), set(s.f1), set(s.f2, s.f1, s.g, s.h, s.d), set(s.f1, s.f2, s.f3, s.d, s.e, f13), set(s.f3, s.h, lib), set(s.f2, s.g))
		s.state("b", set(), set(s.f1, s.f2, s.d))
	}
	o := obsoletes()
	if o != nil {
		s.distribution("a", o...)
	}
	pre := s.snap()
	err := s.M.Index("a")
	sym.Assert(err == nil, "indexing succeeds")
	s.checkIndex(pre.repo("a"), o)
	s.sumsMatch("a")
	sym.Reach("indexed")
	expectSame(pre, s.snap(), "indexing")
}

// HIndexAssets: the distribution, component and group assets are merged in.
func HIndexAssets() {
	s := &scene{World: newWorld()}
	must(s.M.CreateRepo("a"))
	s.f1 = s.pkg("foo-1.eopkg", "foo", "foo", "1", 1)
	if sym.Choose("packages", 2) == 1 {
		s.fill("a", s.f1)
	}
	pre := s.snap()
	if sym.Choose("earlier run", 2) == 1 {
		// an earlier run of the same process saw other assets
		s.distribution("a", "foo", "abc")
		must(os.WriteFile(filepath.Join(s.assetDir("a"), "components.xml"), []byte("<PISI><Components><Component><Name>old</Name><LocalName>L</LocalName><Summary>S</Summary><Description>D</Description><Group>g</Group></Component></Components></PISI>"), 0644))
		must(os.WriteFile(filepath.Join(s.assetDir("a"), "groups.xml"), []byte("<PISI><Groups><Group><Name>old</Name><LocalName>L</LocalName><Icon>i</Icon></Group></Groups></PISI>"), 0644))
		must(s.M.Index("a"))
		for _, n := range []string{"distribution.xml", "components.xml", "groups.xml"} {
			must(os.Remove(filepath.Join(s.assetDir("a"), n)))
		}
	}
	var comps, groups, o []string
	dist := sym.Choose("distribution", 3)
	switch dist {
	case 1:
		s.distribution("a")
	case 2:
		o = []string{"foo"}
		s.distribution("a", "foo")
	}
	if n := sym.Choose("components", 4); n > 0 {
		comps = []string{sym.Chars("comp1", "abz.", 2), sym.Chars("comp2", "abz.", 2), "abc"}[:n-1]
		t := "<PISI><Components>"
		for _, c := range comps {
			t += "<Component><Name>" + c + "</Name><LocalName>L</LocalName><Summary>S</Summary><Description>D</Description><Group>g</Group></Component>"
		}
		must(os.WriteFile(filepath.Join(s.assetDir("a"), "components.xml"), []byte(t+"</Components></PISI>"), 0644))
	}
	if n := sym.Choose("groups", 4); n > 0 {
		groups = []string{sym.Chars("group1", "abz", 1), "app", "az"}[:n-1]
		t := "<PISI><Groups>"
		for _, c := range groups {
			t += "<Group><Name>" + c + "</Name><LocalName>L</LocalName><Icon>i</Icon></Group>"
		}
		must(os.WriteFile(filepath.Join(s.assetDir("a"), "groups.xml"), []byte(t+"</Groups></PISI>"), 0644))
	}
	sym.Assert(s.M.Index("a") == nil, "indexing succeeds")
	x := s.checkIndex(pre.repo("a"), o)
	if dist == 0 {
		sym.Assert(len(x.Distribution) == 0, "no distribution is invented")
	} else {
		sym.Assert(len(x.Distribution) == 1 && x.Distribution[0].SourceName == "Solus" && sameSet(x.Distribution[0].Obsoletes, o), "the index carries the distribution")
	}
	names := func(l []idxNamed) (out []string) {
		for _, n := range l {
			out = append(out, n.Name)
		}
		return
	}
	sym.Assert(sameSet(names(x.Component), comps), "the index carries exactly the components")
	sym.Assert(sameSet(names(x.Group), groups), "the index carries exactly the groups")
	sym.Assert(sort.StringsAreSorted(names(x.Component)) && sort.StringsAreSorted(names(x.Group)), "components and groups are in order")
	s.sumsMatch("a")
	sym.Reach("assets")
}
