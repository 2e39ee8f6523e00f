package vharness

import (
	"os"
	"path/filepath"
	"sort"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HRefs", HRefs)
	add("HFiles", HFiles)
	add("HTips", HTips)
}

// HRefs: C01, C02, C03: the state invariants (reference counts against
// listings, pool and repository files with their original bytes, published
// versions) after every step of any short history of operations on several
// repositories.
func HRefs() { history(true, func(s *scene, pre, post *Snap, t string) { s.checkRefs(post) }) }
func HTips() { history(false, func(s *scene, pre, post *Snap, t string) { s.checkTips(post) }) }
func HFiles() {
	history(false, func(s *scene, pre, post *Snap, t string) {
		s.checkFiles(post)
		if pre == nil {
			return
		}
		// nothing outside the target repository changes
		for i := range pre.Repos {
			id := pre.Repos[i].ID
			if id != t {
				sym.Assert(sameRepo(&pre.Repos[i], post.repo(id)), "no operation changes the listing of another repository")
				sym.Assert(sameSet(eopkgs(s.repoDir(id)), s.seen[id]), "no operation adds or removes files of another repository")
			}
		}
	})
}

// maxRel is the largest symbolic release: two digits in the thorough tier.
func minRel() int {
	if sym.Tier() > 0 {
		return -2
	}
	return 0
}

func maxRel() int {
	if sym.Tier() > 0 {
		return 12
	}
	return 9
}

func (w *World) repoDir(id string) string {
	return filepath.Join(w.Base, core.RepoPathComponent, id)
}

func (w *World) assetDir(id string) string {
	return filepath.Join(w.Base, core.AssetPathComponent, id)
}

// distribution writes the asset that marks names obsolete.
func (w *World) distribution(repo string, names ...string) {
	dir := w.assetDir(repo)
	must(os.MkdirAll(dir, 0755))
	s := "<PISI><SourceName>Solus</SourceName><Version>1</Version><Description>D</Description><Type>main</Type><Obsoletes>"
	for _, n := range names {
		s += "<Package>" + n + "</Package>"
	}
	must(os.WriteFile(filepath.Join(dir, "distribution.xml"), []byte(s+"</Obsoletes></PISI>"), 0644))
}

// scene is the universe of the history harnesses.
type scene struct {
	*World
	f1, f2, f3 *Pkg // versions of foo, releases any
	g          *Pkg // foo-dbginfo, same source as foo
	h, h2      *Pkg // versions of bar, another source in the same letter directory
	d          *Pkg // delta foo-1 -> foo-2
	e          *Pkg // delta foo-2 -> foo-3
	k          *Pkg // delta bar-1 -> bar-2
	seen       map[string][]string
}

// newScene makes the universe; distinct releases when asked for.
func newScene(distinct bool) *scene {
	s := &scene{World: newWorld(), seen: map[string][]string{}}
	r1, r2, r3 := sym.Int("r1", minRel(), maxRel()), sym.Int("r2", minRel(), maxRel()), sym.Int("r3", minRel(), maxRel())
	if distinct {
		sym.Assume(sym.And(r1 != r2, r2 != r3, r1 != r3))
	}
	s.f1 = s.pkg("foo-1.eopkg", "foo", "foo", sym.Chars("version 1", "12", 1), r1)
	s.f2 = s.pkg("foo-2.eopkg", "foo", "foo", sym.Chars("version 2", "12", 1), r2)
	s.f3 = s.pkg("foo-3.eopkg", "foo", "foo", sym.Chars("version 3", "12", 1), r3)
	s.g = s.pkg("foo-dbginfo-1.eopkg", "foo-dbginfo", "foo", "1", 1)
	s.h = s.pkg("bar-1.eopkg", "bar", "far", "1", 3)
	s.h2 = s.pkg("bar-2.eopkg", "bar", "far", "2", 4)
	s.d = s.delta("foo-1-2.delta.eopkg", s.f1, s.f2)
	s.e = s.delta("foo-2-3.delta.eopkg", s.f2, s.f3)
	s.k = s.delta("bar-1-2.delta.eopkg", s.h, s.h2)
	must(s.M.CreateRepo("a"))
	must(s.M.CreateRepo("b"))
	return s
}

// note remembers which files the repositories hold.
func (s *scene) note(snap *Snap) {
	for _, r := range snap.Repos {
		s.seen[r.ID] = eopkgs(s.repoDir(r.ID))
	}
}

// fill makes a repository list the given packages and deltas.
func (s *scene) fill(repo string, ps ...*Pkg) {
	var plain []*Pkg
	for _, p := range ps {
		if p.From == "" {
			plain = append(plain, p)
		}
	}
	if len(plain) > 0 {
		must(s.add(repo, false, plain...))
	}
	for _, p := range ps {
		if p.From != "" {
			must(s.addDelta(repo, p))
		}
	}
}

// state fills a repository with any of the listed package sets.
func (s *scene) state(repo string, sets ...[]*Pkg) []*Pkg {
	set := sets[sym.Choose(repo+" lists", len(sets))]
	s.fill(repo, set...)
	return set
}

func set(ps ...*Pkg) []*Pkg { return ps }

// common fills repositories a and b.
func (s *scene) common() {
	s.state("a", set(), set(s.f1), set(s.f1, s.f2), set(s.f1, s.f2, s.d), set(s.f2, s.f1, s.g, s.h, s.d), set(s.f1, s.g), set(s.f3, s.f1, s.f2, s.e, s.d), set(s.h2, s.f2, s.h, s.f3, s.k, s.e))
	s.state("b", set(), set(s.f1), set(s.f2, s.h), set(s.f1, s.f2, s.d), set(s.h, s.h2, s.k, s.g))
}

func ids(ps []*Pkg) []string {
	var out []string
	for _, p := range ps {
		out = append(out, p.ID)
	}
	return out
}

// anyOp runs one operation with any arguments and returns the repository it
// may change; failures are allowed.
func (s *scene) anyOp(n string) string {
	switch sym.Choose(n+"op", 13) {
	case 0:
		p := []*Pkg{s.f1, s.f2, s.f3, s.g, s.h}[sym.Choose(n+"pkg", 5)]
		s.add("a", sym.Choose(n+"strict", 2) == 1, p)
	case 1:
		s.add("a", false, s.f3, s.f1)
	case 2:
		s.M.CloneRepo("a", "c", sym.Choose(n+"full", 2) == 1)
		return "c"
	case 3:
		s.M.PullRepo("b", "a")
	case 4:
		s.M.PullRepo("a", "b")
		return "b"
	case 5:
		s.M.CopySource("b", "a", "foo", sym.Int(n+"rel", 0, maxRel()), false)
	case 6:
		s.M.RemoveSource("a", "foo", sym.Int(n+"rel", 0, maxRel()))
	case 7:
		s.M.TrimPackages("a", 1)
	case 8:
		s.distribution("a", "foo")
		s.M.TrimObsolete("a")
	case 9:
		s.M.DeleteRepo("a")
	case 10:
		s.addDelta("a", s.d)
	case 11:
		s.M.RefDelta("a", s.d.ID)
	case 12:
		s.M.DeleteRepo("b")
		return "b"
	}
	return "a"
}

// history builds any of the start states, runs any operation (two in the
// thorough tier) and checks the invariant after each.
func history(distinct bool, check func(s *scene, pre, post *Snap, target string)) {
	s := newScene(distinct)
	s.common()
	pre := s.snap()
	s.note(pre)
	check(s, nil, pre, "")
	sym.Reach("setup")
	t := s.anyOp("")
	post := s.snap()
	check(s, pre, post, t)
	sym.Reach("op")
	if sym.Tier() > 0 {
		s.note(post)
		t = s.anyOp("2nd ")
		check(s, post, s.snap(), t)
	}
}

// ---- reference model of what one repository lists

type entry struct {
	name, pub     string
	avail, deltas []string
}

type listing struct{ entries []*entry }

func listingOf(r *RepoSnap) *listing {
	l := &listing{}
	if r == nil {
		return l
	}
	for _, e := range r.Entries {
		l.entries = append(l.entries, &entry{e.Name, e.Published, append([]string{}, e.Available...), append([]string{}, e.Deltas...)})
	}
	return l
}

func (l *listing) get(name string) *entry {
	for _, e := range l.entries {
		if e.name == name {
			return e
		}
	}
	return nil
}

// insert adds a package the way an import should.
func (l *listing) insert(w *World, p *Pkg) {
	e := l.get(p.Name)
	if e == nil {
		l.entries = append(l.entries, &entry{name: p.Name, pub: p.ID, avail: []string{p.ID}})
		return
	}
	if has(e.avail, p.ID) {
		return
	}
	e.avail = append(e.avail, p.ID)
	if p.Release > w.byID(e.pub).Release {
		e.pub = p.ID
	}
}

// remove takes a package out together with the deltas from or to it.
func (l *listing) remove(w *World, id string) {
	p := w.byID(id)
	e := l.get(p.Name)
	if e == nil || !has(e.avail, id) {
		return
	}
	e.avail = without(e.avail, id)
	var ds []string
	for _, d := range e.deltas {
		if dp := w.byID(d); dp.From != id && dp.To != id {
			ds = append(ds, d)
		}
	}
	e.deltas = ds
	if len(e.avail) == 0 {
		var es []*entry
		for _, x := range l.entries {
			if x != e {
				es = append(es, x)
			}
		}
		l.entries = es
		return
	}
	e.pub = e.avail[0]
	for _, x := range e.avail {
		if w.byID(x).Release > w.byID(e.pub).Release {
			e.pub = x
		}
	}
}

func without(l []string, s string) []string {
	var out []string
	for _, x := range l {
		if x != s {
			out = append(out, x)
		}
	}
	return out
}

// expect asserts that a repository lists exactly l.
func expect(r *RepoSnap, l *listing, what string) {
	sym.Assert(r != nil, what+": the repository exists")
	var want, got []string
	for _, e := range l.entries {
		want = append(want, e.name)
	}
	for _, e := range r.Entries {
		got = append(got, e.Name)
	}
	sym.Assert(sameSet(want, got), what+": exactly the expected names are listed")
	for _, e := range l.entries {
		g := r.entry(e.name)
		sym.Assert(sameSet(e.avail, g.Available), what+": exactly the expected versions are listed")
		sym.Assert(sameSet(e.deltas, g.Deltas), what+": exactly the expected deltas are listed")
		sym.Assert(e.pub == g.Published, what+": the expected version is published")
	}
	// the repository directory holds exactly the listed files
}

// expectFiles asserts that the repository tree holds exactly what it lists.
func (w *World) expectFiles(r *RepoSnap, what string) {
	l := append(r.available(), r.deltas()...)
	sort.Strings(l)
	sym.Assert(sameSet(l, eopkgs(w.repoDir(r.ID))), what+": the repository tree holds exactly the listed files")
}

// expectSame asserts that nothing at all changed in the listings and the pool.
func expectSame(pre, post *Snap, what string) {
	sym.Assert(len(pre.Repos) == len(post.Repos), what+": no repository appears or disappears")
	for i := range pre.Repos {
		sym.Assert(sameRepo(&pre.Repos[i], post.repo(pre.Repos[i].ID)), what+": no listing changes")
	}
	sym.Assert(len(pre.Pool) == len(post.Pool), what+": no pool record appears or disappears")
	for i := range pre.Pool {
		p := post.pool(pre.Pool[i].Name)
		sym.Assert(p != nil && p.RefCount == pre.Pool[i].RefCount, what+": no reference count changes")
	}
}
