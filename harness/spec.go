package vharness

import (
	"encoding/xml"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

// Every operation against its specification: the listings after it are those
// of a short reference model applied to the listings before it.

func init() {
	add("HImport", HImport)
	add("HClone", HClone)
	add("HPull", HPull)
	add("HCopy", HCopy)
	add("HRemove", HRemove)
	add("HTrim", HTrim)
	add("HObsolete", HObsolete)
	add("HCreate", HCreate)
	add("HDelete", HDelete)
}

func (s *scene) sets() [][]*Pkg {
	return [][]*Pkg{set(), set(s.f1), set(s.f2, s.f1, s.g, s.h, s.d), set(s.f1, s.f2, s.f3, s.d, s.e), set(s.f3, s.h), set(s.f2, s.g), set(s.h, s.f1, s.h2, s.f2, s.d, s.k)}
}

// others asserts that no repository but t changed.
func others(pre, post *Snap, t, what string) {
	for i := range pre.Repos {
		if pre.Repos[i].ID != t {
			sym.Assert(sameRepo(&pre.Repos[i], post.repo(pre.Repos[i].ID)), what+": other repositories stay as they were")
		}
	}
}

// HImport: C04, a bulk or strict import of one or two package files (new,
// listed, older, equal or newer release, same name elsewhere) into any small
// repository; listing, published version and refusal are compared with what
// the releases demand.
func HImport() {
	s := newScene(false)
	s.state("a", s.sets()...)
	s.state("b", set(), set(s.f1, s.f2, s.d))
	lists := [][]*Pkg{set(s.f1), set(s.f2), set(s.f3), set(s.g), set(s.h), set(s.f1, s.f3), set(s.f3, s.f2), set(s.h, s.f1), set(s.f2, s.f2)}
	l := lists[sym.Choose("import", len(lists))]
	strict := sym.Choose("strict", 2) == 1
	pre := s.snap()
	err := s.add("a", strict, l...)
	post := s.snap()
	want := listingOf(pre.repo("a"))
	refused := false
	for _, p := range l {
		e := want.get(p.Name)
		if strict && e != nil && p.Release <= s.byID(e.pub).Release {
			refused = true
			break // the import stops at the refused package
		}
		want.insert(s.World, p)
	}
	if refused {
		sym.Reach("refused")
		sym.Assert(err != nil, "an upload that is not newer than the published version is refused")
	} else {
		sym.Reach("accepted")
		sym.Assert(err == nil, "an import of valid packages succeeds")
	}
	expect(post.repo("a"), want, "import")
	s.expectFiles(post.repo("a"), "import")
	others(pre, post, "a", "import")
	if !refused && !strict {
		sym.Assert(s.add("a", false, l...) == nil, "repeating an import succeeds")
		again := s.snap()
		expectSame(post, again, "repeating an import")
		sym.Reach("repeated")
	}
}

// HClone: C05, a full or tip clone of any small repository with deltas and
// assets, also onto an existing name; listings, tips, files and assets of both
// are compared.
func HClone() {
	s := newScene(true)
	s.state("a", append(s.sets(), set(s.f2, s.f3, s.f1, s.g, s.d))...)
	s.state("b", set(), set(s.f1, s.f2, s.d))
	assets := []string{"distribution.xml", "components.xml", "groups.xml"}
	data := map[string]string{
		"distribution.xml": "<PISI><SourceName>Solus</SourceName></PISI>",
		"components.xml":   "<PISI><Components></Components></PISI>",
		"groups.xml":       "<PISI><Groups></Groups></PISI>",
	}
	mask := []int{0, 7, 1, 6}[sym.Choose("assets", 4)]
	for i, n := range assets {
		if mask&(1<<i) != 0 {
			must(os.WriteFile(filepath.Join(s.assetDir("a"), n), []byte(data[n]), 0644))
		}
	}
	full := sym.Choose("full", 2) == 1
	pre := s.snap()
	target := []string{"c", "b", "a"}[sym.Choose("target", 3)]
	var bfiles []string
	if target == "b" {
		bfiles = files(s.repoDir("b"))
	}
	err := s.M.CloneRepo("a", target, full)
	post := s.snap()
	if target != "c" {
		sym.Assert(err != nil, "cloning onto an existing repository is refused")
		expectSame(pre, post, "a refused clone")
		for i, n := range assets {
			sym.Assert(mask&(1<<i) == 0 || content(filepath.Join(s.assetDir("a"), n)) == data[n], "a refused clone leaves the source's assets alone")
		}
		if target == "b" {
			sym.Assert(sameSet(bfiles, files(s.repoDir("b"))), "a refused clone leaves the files alone")
			sym.Assert(len(files(s.assetDir("b"))) == 0, "a refused clone leaves the assets alone")
		}
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a clone to a new name succeeds")
	want := &listing{}
	for _, e := range listingOf(pre.repo("a")).entries {
		if !full {
			e.avail, e.deltas = []string{e.pub}, nil
		}
		want.entries = append(want.entries, e)
	}
	expect(post.repo("c"), want, "clone")
	s.expectFiles(post.repo("c"), "clone")
	others(pre, post, "c", "clone")
	sym.Assert(len(post.Repos) == len(pre.Repos)+1, "clone: exactly one repository appears")
	for i, n := range assets {
		if mask&(1<<i) != 0 {
			sym.Assert(content(filepath.Join(s.assetDir("c"), n)) == data[n], "clone: the assets are copied")
		} else {
			sym.Assert(!exists(filepath.Join(s.assetDir("c"), n)), "clone: no asset is invented")
		}
	}
	sym.Assert(s.M.CloneRepo("nope", "d", full) != nil, "cloning from a repository that does not exist is refused")
	expectSame(post, s.snap(), "a clone from nowhere")
	sym.Reach("cloned")
}

// HPull: C06, a pull between two repositories whose versions have symbolic
// releases and whose asset files differ; the reported names, listings and
// assets are compared with the rule.
func HPull() {
	s := newScene(false)
	s.state("a", s.sets()...)
	s.state("b", append(s.sets(), set(s.f1, s.f2, s.d))...)
	names := []string{"distribution.xml", "components.xml", "groups.xml"}
	asset := map[string]string{}
	mask := []int{0, 3, 5, 15}[sym.Choose("assets", 4)]
	for i, n := range names {
		doc := [][2]string{
			{"<PISI><SourceName>A</SourceName></PISI>", "<PISI><SourceName>Solus</SourceName><Version>1</Version></PISI>"},
			{"<PISI><Components></Components></PISI>", "<PISI><Components><Component><Name>c</Name></Component></Components></PISI>"},
			{"<PISI><Groups></Groups></PISI>", "<PISI><Groups><Group><Name>g</Name></Group></Groups></PISI>"},
		}[i]
		if mask&8 != 0 {
			must(os.WriteFile(filepath.Join(s.assetDir("b"), n), []byte(doc[1]), 0644))
			asset[n] = doc[1]
		}
		if mask&(1<<i) != 0 {
			must(os.WriteFile(filepath.Join(s.assetDir("a"), n), []byte(doc[0]), 0644))
			asset[n] = doc[0]
		}
	}
	pre := s.snap()
	changed, err := s.M.PullRepo("a", "b")
	post := s.snap()
	want := listingOf(pre.repo("b"))
	var news []string
	bad := false
	for _, e := range listingOf(pre.repo("a")).entries {
		mine := want.get(e.name)
		if mine == nil || s.byID(e.pub).Release > s.byID(mine.pub).Release {
			news = append(news, e.name)
			want.insert(s.World, s.byID(e.pub))
		} else if s.byID(e.pub).Release < s.byID(mine.pub).Release {
			bad = true
		}
	}
	others(pre, post, "b", "pull")
	if bad {
		sym.Assert(err != nil, "pulling into a repository that publishes something newer fails")
		expect(post.repo("b"), listingOf(pre.repo("b")), "a failed pull")
		expectSame(pre, post, "a failed pull")
		sym.Reach("inconsistent")
		return
	}
	sym.Assert(err == nil, "a pull succeeds")
	for _, n := range names {
		want := asset[n]
		if want == "" {
			want = "(missing)"
		}
		sym.Assert(content(filepath.Join(s.assetDir("b"), n)) == want, "pull: the source's assets replace the target's")
	}
	sym.Assert(sameSet(news, changed), "a pull reports exactly the names it changed")
	expect(post.repo("b"), want, "pull")
	s.expectFiles(post.repo("b"), "pull")
	if len(news) > 0 {
		sym.Reach("pulled")
	} else {
		sym.Reach("nothing")
	}
}

// indexed reads which package URIs the published index of a repository names.
func (w *World) indexed(repo string) []string {
	b, err := os.ReadFile(filepath.Join(w.repoDir(repo), "eopkg-index.xml"))
	must(err)
	var x struct {
		Package []struct{ PackageURI string }
	}
	must(xml.Unmarshal(b, &x))
	var out []string
	for _, p := range x.Package {
		out = append(out, filepath.Base(p.PackageURI))
	}
	sort.Strings(out)
	return out
}

// anySource is any name of up to four letters those in use are made of, or the
// name of a package that is not a source.
func anySource() string {
	n := sym.Choose("source", 6)
	if n == 5 {
		return "foo-dbginfo"
	}
	return sym.Chars("source", "fobarF", n)
}

// HCopy: C07, copying a source name with a symbolic release (or all) between
// two repositories, with and without indexing.
func HCopy() {
	s := newScene(false)
	s.state("a", s.sets()...)
	s.state("b", set(), set(s.f1), set(s.f2, s.f3, s.h), set(s.f1, s.f2, s.g, s.d))
	src := anySource()
	rel := sym.Int("rel", -1, maxRel())
	skip := sym.Choose("skip", 2) == 1
	pre := s.snap()
	old := s.indexed("b")
	err := s.M.CopySource("a", "b", src, rel, skip)
	now := s.indexed("b")
	post := s.snap()
	want := listingOf(pre.repo("b"))
	n := 0
	for _, e := range listingOf(pre.repo("a")).entries {
		for _, id := range e.avail {
			p := s.byID(id)
			if p.Source == src && (rel <= 0 || p.Release == rel) {
				n++
				want.insert(s.World, p)
			}
		}
	}
	others(pre, post, "b", "copy")
	if n == 0 {
		sym.Assert(err != nil, "copying fails when nothing matches")
		expectSame(pre, post, "a failed copy")
		sym.Reach("nothing")
		return
	}
	sym.Assert(err == nil, "a copy with a match succeeds")
	// the target may list several versions of one release: compare what is
	// available, and what is published up to its release
	r := post.repo("b")
	for _, e := range want.entries {
		if g := r.entry(e.name); g != nil && s.byID(g.Published) != nil && has(e.avail, g.Published) && s.byID(g.Published).Release == s.byID(e.pub).Release {
			e.pub = g.Published
		}
	}
	expect(r, want, "copy")
	s.expectFiles(r, "copy")
	var pubs []string
	for _, e := range want.entries {
		pubs = append(pubs, e.pub)
	}
	if skip {
		sym.Assert(sameSet(old, now), "a copy asked to skip indexing leaves the index alone")
		sym.Reach("skipped")
	} else {
		sym.Assert(sameSet(pubs, now), "a copy refreshes the index of the target")
		sym.Reach("indexed")
	}
}

// HRemove: C08, removing a source name with a symbolic release (or all), with
// deltas of several directions, other sources and packages that moved between
// sources.
func HRemove() {
	s := newScene(true)
	moved := sym.Choose("moved", 2) == 1
	if moved {
		// the same name, and one of the releases, from another source
		f4 := s.pkg("foo-4.eopkg", "foo", "oof", "2", s.f2.Release)
		sym.Assume(s.f3.Release > s.f2.Release)
		s.state("a", set(s.f1, s.f2, f4, s.f3, s.d, s.e), set(f4, s.f3, s.f2, s.f1, s.h, s.d))
	} else {
		s.state("a", append(s.sets(), set(s.f3, s.f2, s.f1, s.g, s.h, s.d, s.e))...)
	}
	s.state("b", set(), set(s.f1, s.f2, s.d))
	src := anySource()
	rel := sym.Int("rel", -1, maxRel())
	// two versions of one release may not both become the latest
	sym.Assume(!moved || rel != s.f3.Release)
	pre := s.snap()
	err := s.M.RemoveSource("a", src, rel)
	post := s.snap()
	want := listingOf(pre.repo("a"))
	n := 0
	for _, e := range listingOf(pre.repo("a")).entries {
		for _, id := range e.avail {
			p := s.byID(id)
			if p.Source == src && (rel <= 0 || p.Release == rel) {
				n++
				want.remove(s.World, id)
			}
		}
	}
	others(pre, post, "a", "remove")
	if n == 0 {
		sym.Assert(err != nil, "removing fails when nothing matches")
		expectSame(pre, post, "a failed removal")
		sym.Reach("nothing")
		return
	}
	sym.Assert(err == nil, "a removal with a match succeeds")
	expect(post.repo("a"), want, "remove")
	s.expectFiles(post.repo("a"), "remove")
	sym.Reach("removed")
}

// HTrim: C09, trimming to a symbolic number, names with several symbolic
// distinct releases.
func HTrim() {
	s := newScene(true)
	s.state("a", append(s.sets(), set(s.f3, s.f2, s.f1, s.g, s.h, s.h2, s.d, s.e), set(s.h2, s.h, s.f1))...)
	s.state("b", set(), set(s.f1, s.f2, s.d))
	n := sym.Int("keep", -1, 4)
	pre := s.snap()
	err := s.M.TrimPackages("a", n)
	post := s.snap()
	others(pre, post, "a", "trim")
	if n < 1 {
		sym.Assert(err != nil, "trimming to less than one version is refused")
		expectSame(pre, post, "a refused trim")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a trim succeeds")
	want := listingOf(pre.repo("a"))
	for _, e := range listingOf(pre.repo("a")).entries {
		for _, id := range e.avail {
			newer := 0
			for _, o := range e.avail {
				if s.byID(o).Release > s.byID(id).Release {
					newer++
				}
			}
			if newer >= n {
				want.remove(s.World, id)
				sym.Reach("trimmed")
			}
		}
	}
	expect(post.repo("a"), want, "trim")
	s.expectFiles(post.repo("a"), "trim")
	for _, e := range listingOf(pre.repo("a")).entries {
		sym.Assert(post.repo("a").entry(e.name) != nil && post.repo("a").entry(e.name).Published == e.pub, "a trim never drops the published version")
	}
	sym.Reach("done")
}

// obsoletes is any obsolete set: none given, empty, or one or two names that
// can coincide with those in use.
func obsoletes() []string {
	name := func(l string) string {
		n := sym.Chars(l, "fobar", 3)
		switch sym.Choose(l+" suffix", 3) {
		case 1:
			return n + "-dbginfo"
		case 2:
			return n + "-"
		}
		return n
	}
	switch sym.Choose("obsoletes", 4) {
	case 1:
		return []string{}
	case 2:
		return []string{name("obs1")}
	case 3:
		return []string{name("obs1"), "bar"}
	}
	return nil
}

// HObsolete: C10, trimming obsoletes with a symbolic distribution file and
// packages whose names do or nearly do match, -dbginfo included.
func HObsolete() {
	s := newScene(true)
	k := s.pkg("bar-dbginfo-1.eopkg", "bar-dbginfo", "bar", "1", 3)
	g2 := s.pkg("foo-dbginfo-2.eopkg", "foo-dbginfo", "foo", "2", 2)
	u, v := s.pkg("foo-dbginfo-x-1.eopkg", "foo-dbginfo-x", "foo", "1", 1), s.pkg("foo-dbginfo-dbginfo-1.eopkg", "foo-dbginfo-dbginfo", "foo", "1", 1)
	s.state("a", append(s.sets(), set(s.f1, s.f2, s.g, g2, s.h, k, s.d), set(k, s.g, g2), set(u, v, s.g))...)
	s.state("b", set(), set(s.f1, s.f2, s.d))
	o := obsoletes()
	if o != nil {
		s.distribution("a", o...)
	}
	pre := s.snap()
	err := s.M.TrimObsolete("a")
	post := s.snap()
	others(pre, post, "a", "trim obsolete")
	if o == nil {
		sym.Assert(err != nil, "trimming obsoletes without a distribution file is refused")
		expectSame(pre, post, "a refused trim")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "trimming obsoletes succeeds")
	want := listingOf(pre.repo("a"))
	for _, e := range listingOf(pre.repo("a")).entries {
		if obsolete(o, e.name) {
			for _, id := range e.avail {
				want.remove(s.World, id)
				sym.Reach("obsolete")
			}
		}
	}
	expect(post.repo("a"), want, "trim obsolete")
	s.expectFiles(post.repo("a"), "trim obsolete")
}

func obsolete(o []string, name string) bool {
	return has(o, name) || (strings.HasSuffix(name, "-dbginfo") && has(o, strings.TrimSuffix(name, "-dbginfo")))
}

// HCreate: C11, creation of new, existing and half-existing repositories, and
// what is on disk afterwards.
func HCreate() {
	s := newScene(true)
	s.state("a", s.sets()...)
	name := []string{"a", "b", "c", "a-b"}[sym.Choose("name", 4)]
	pre := s.snap()
	before := files(s.Base)
	err := s.M.CreateRepo(name)
	after := files(s.Base)
	post := s.snap()
	for i := range pre.Repos {
		sym.Assert(sameRepo(&pre.Repos[i], post.repo(pre.Repos[i].ID)), "creating a repository leaves the others alone")
	}
	if name == "a" || name == "b" {
		sym.Assert(err != nil, "creating a repository that exists is refused")
		expectSame(pre, post, "a refused creation")
		sym.Assert(sameSet(before, after), "a refused creation leaves the files alone")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "creating a new repository succeeds")
	sym.Assert(len(post.Repos) == len(pre.Repos)+1, "creating a repository adds exactly one")
	expect(post.repo(name), &listing{}, "create")
	sym.Assert(len(eopkgs(s.repoDir(name))) == 0, "a new repository holds no packages")
	sym.Assert(len(s.indexed(name)) == 0, "a new repository has an empty index")
	rs, err := s.M.GetRepos()
	sym.Assert(err == nil && len(rs) == len(post.Repos), "every repository is reported")
	names, err := s.M.GetPackageNames(name)
	sym.Assert(err == nil && len(names) == 0, "a new repository reports no packages")
	sym.Reach("created")
}

// HDelete: C11, deletion and re-creation under the same name, the other
// repositories unchanged.
func HDelete() {
	s := newScene(true)
	s.state("a", append(s.sets(), set(s.f1, s.f2, s.f3, s.g, s.h, s.d, s.e))...)
	s.state("b", set(), set(s.f1, s.f2, s.d), set(s.f2, s.h))
	if sym.Choose("distribution", 2) == 1 {
		s.distribution("a", "foo")
	}
	name := []string{"a", "c"}[sym.Choose("name", 2)]
	pre := s.snap()
	if name == "c" {
		sym.Assert(s.M.DeleteRepo("c") != nil, "deleting a repository that does not exist is refused")
		expectSame(pre, s.snap(), "a refused deletion")
		sym.Reach("refused")
		return
	}
	if sym.Choose("used", 2) == 1 {
		_, err := s.M.GetRepo("a") // the manager already knows it
		must(err)
	}
	sym.Assert(s.M.DeleteRepo("a") == nil, "deleting a repository succeeds")
	_, err := s.M.GetRepo("a")
	sym.Assert(err != nil, "a deleted repository is gone")
	post := s.snap()
	sym.Assert(post.repo("a") == nil && len(post.Repos) == len(pre.Repos)-1, "delete: exactly the one repository disappears")
	others(pre, post, "a", "delete")
	s.expectFiles(post.repo("b"), "delete")
	for _, d := range []string{core.RepoPathComponent, core.AssetPathComponent, core.DeltaPathComponent, core.DeltaStagePathComponent} {
		sym.Assert(!exists(filepath.Join(s.Base, d, "a")), "the directories of a deleted repository are gone")
	}
	for _, p := range s.Pkgs {
		n := 0
		for _, r := range post.Repos {
			if has(r.available(), p.ID) || has(r.deltas(), p.ID) {
				n++
			}
		}
		pe := post.pool(p.ID)
		sym.Assert((pe != nil) == (n > 0) && (pe == nil || pe.RefCount == uint64(n)), "deleting a repository releases exactly its packages")
	}
	sym.Assert(s.M.CreateRepo("a") == nil, "a deleted repository can be created again")
	again := s.snap()
	expect(again.repo("a"), &listing{}, "create again")
	s.expectFiles(again.repo("a"), "create again")
	others(post, again, "a", "create again")
	sym.Reach("deleted")
}
