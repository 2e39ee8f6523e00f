package vharness

import (
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HIndexCrash", HIndexCrash)
	add("HIndexFault", HIndexFault)
}

var published = []string{
	"eopkg-index.xml", "eopkg-index.xml.sha1sum", "eopkg-index.xml.sha256sum",
	"eopkg-index.xml.xz", "eopkg-index.xml.xz.sha1sum", "eopkg-index.xml.xz.sha256sum",
	"eopkg-index.xml.zst", "eopkg-index.xml.zst.sha1sum", "eopkg-index.xml.zst.sha256sum",
}

func (w *World) publishedFiles(repo string) []string {
	var out []string
	for _, n := range published {
		out = append(out, content(filepath.Join(w.repoDir(repo), n)))
	}
	return out
}

// unindexed makes a repository whose published index is out of date, so that
// the next run publishes something else.
func unindexed() *scene {
	s := &scene{World: newWorld()}
	must(s.M.CreateRepo("a"))
	s.f1 = s.pkg("foo-1.eopkg", "foo", "foo", "1", sym.Int("r1", 1, 9))
	s.f2 = s.pkg("foo-2.eopkg", "foo", "foo", "2", sym.Int("r2", 1, 9))
	s.h = s.pkg("bar-1.eopkg", "bar", "bar", "1", 3)
	s.d = s.delta("foo-1-2.delta.eopkg", s.f1, s.f2)
	s.fill("a", s.f1, s.f2, s.h)
	if sym.Choose("change", 2) == 0 {
		s.distribution("a", "bar")
	} else {
		sym.Assume(s.f2.Release > s.f1.Release)
		s.fill("a", s.d)
	}
	return s
}

func noTemporaries(w *World, repo, what string) {
	for _, f := range files(w.repoDir(repo)) {
		sym.Assert(!strings.Contains(f, ".new"), what)
	}
}

// HIndexCrash: C13, crash at any operation of an indexing run.
func HIndexCrash() {
	s := unindexed()
	old := s.publishedFiles("a")
	if !sym.Crash(func() { s.M.Index("a") }) {
		s.sumsMatch("a")
		noTemporaries(s.World, "a", "no temporary file remains after indexing")
		sym.Reach("done")
		return
	}
	s.M = nil
	left := s.publishedFiles("a")
	s.open()
	if sym.Choose("again", 2) == 0 {
		sym.Assert(s.M.Index("a") == nil, "indexing succeeds after a crash")
	} else {
		// the daemon goes on with some other request first
		must(s.add("a", false, s.h))
		sym.Assert(s.M.Index("a") == nil, "indexing succeeds after a crash")
	}
	now := s.publishedFiles("a")
	for i := range old {
		sym.Assert(left[i] == old[i] || left[i] == now[i], "at a crash every published file is a complete old or new version")
	}
	noTemporaries(s.World, "a", "no temporary file remains after the next run")
	s.sumsMatch("a")
	s.decompressed("a")
	sym.Reach("crashed")
}

// HIndexFault: C13, any single operation of an indexing run fails.
func HIndexFault() {
	s := unindexed()
	old := s.publishedFiles("a")
	var err error
	hit := sym.Fault(func() { err = s.M.Index("a") })
	left := s.publishedFiles("a")
	if err == nil {
		s.sumsMatch("a")
		s.decompressed("a")
		sym.Reach("succeeded")
	} else {
		sym.Assert(hit, "indexing fails only when something failed")
		noTemporaries(s.World, "a", "a failed run leaves no temporary file")
		sym.Reach("failed")
	}
	sym.Assert(s.M.Index("a") == nil, "indexing succeeds after a failed run")
	now := s.publishedFiles("a")
	changed := false
	for i := range old {
		sym.Assert(left[i] == old[i] || left[i] == now[i], "after a failure every published file is a complete old or new version")
		if left[i] != old[i] {
			changed = true
		}
	}
	if err == nil {
		for i := range now {
			sym.Assert(left[i] == now[i], "a run that reports success has published everything")
		}
	}
	if changed && err != nil {
		sym.Reach("failed during publication")
	}
	s.sumsMatch("a")
}

// decompressed: the compressed forms are those of the published index.
func (w *World) decompressed(repo string) {
	for _, c := range []string{"xz", "zst"} {
		p := filepath.Join(w.repoDir(repo), "eopkg-index.xml")
		got, ok := decompress(c, p+"."+c)
		sym.Assert(ok && got == content(p), "the compressed index is that of the published index")
	}
}

func decompress(kind, path string) (string, bool) {
	tmp := filepath.Join(filepath.Dir(filepath.Dir(filepath.Dir(path))), "decompress."+kind)
	b, err := os.ReadFile(path)
	if err != nil {
		return "", false
	}
	must(os.WriteFile(tmp, b, 0644))
	defer os.Remove(strings.TrimSuffix(tmp, "."+kind))
	tool := map[string]string{"xz": "unxz", "zst": "unzstd"}[kind]
	if err := run(tool, tmp); err != nil {
		return "", false
	}
	os.Remove(tmp)
	return content(strings.TrimSuffix(tmp, "."+kind)), true
}

func run(tool string, args ...string) error { return exec.Command(tool, args...).Run() }

func init() {
	add("HImportCrash", HImportCrash)
	add("HCopyCrash", HCopyCrash)
	add("HCopyFault", HCopyFault)
	add("HRemoveCrash", HRemoveCrash)
	add("HImportFault", HImportFault)
	add("HRemoveFault", HRemoveFault)
}

// keep remembers the bytes of every file below the pool and the repositories
// except the published indexes.
func (w *World) keep() map[string]string {
	m := map[string]string{}
	for _, d := range []string{"pool", "repo"} {
		for _, f := range files(filepath.Join(w.Base, d)) {
			if filepath.Ext(f) == ".eopkg" {
				p := filepath.Join(d, f)
				m[p] = content(filepath.Join(w.Base, p))
			}
		}
	}
	return m
}

func (w *World) checkKept(m map[string]string, what string) {
	for _, p := range sortedKeys(m) {
		sym.Assert(content(filepath.Join(w.Base, p)) == m[p], what)
	}
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// disturb runs an operation in which the process dies or something fails; the
// result tells whether that happened.
func (s *scene) disturb(op func() error, fault, nothing bool, complete func()) bool {
	if !fault {
		if !sym.Crash(func() { op() }) {
			sym.Reach("completed")
			return false
		}
		s.M = nil
		s.open()
		return true
	}
	var err error
	hit := sym.Fault(func() { err = op() })
	if err == nil {
		if hit {
			sym.Reach("succeeded all the same")
		}
		complete()
		sym.Reach("completed")
		return false
	}
	sym.Assert(hit || nothing, "an operation fails only when something failed")
	sym.Reach("failed")
	return true
}

// HImportCrash: an import, reference, clone, pull or copy in which the process
// dies at any operation, and its repetition after a restart.
func HImportCrash() { interruptedImport(false, "") }

// HImportFault: the same operations when any one of their file or database
// operations fails, and their repetition in the same process.
func HImportFault() { interruptedImport(true, "") }

// HCopyCrash: HImportCrash with uploads or the pool on another file system,
// where package files are copied instead of linked.
func HCopyCrash() {
	interruptedImport(false, []string{"in", "base/pool"}[sym.Choose("elsewhere", 2)])
}

// HCopyFault: HImportFault with uploads or the pool on another file system.
func HCopyFault() {
	interruptedImport(true, []string{"in", "base/pool"}[sym.Choose("elsewhere", 2)])
}

func interruptedImport(fault bool, other string) {
	otherDevice = other
	crash := "a crash"
	if fault {
		crash = "a failure"
	}
	s := newScene(true)
	if other == "" {
		s.state("a", set(), set(s.f1, s.f2), set(s.f1, s.h), set(s.f1, s.f2, s.d))
		s.state("b", set(), set(s.f1, s.f2, s.h, s.g), set(s.f2, s.f1, s.d))
	} else {
		s.state("a", set(s.f1, s.f2))
		s.state("b", set(s.f2, s.h, s.d))
	}
	pre := s.snap()
	before := s.keep()
	want := listingOf(pre.repo("a"))
	target := "a"
	var op func() error
	var asset map[string]string
	assets := func(repo string) {
		asset = map[string]string{"distribution.xml": "<PISI><SourceName>A</SourceName></PISI>", "groups.xml": "<PISI><Groups></Groups></PISI>"}
		for _, n := range sortedKeys(asset) {
			must(os.WriteFile(filepath.Join(s.assetDir(repo), n), []byte(asset[n]), 0644))
		}
	}
	switch sym.Choose("op", 7) {
	case 0, 1:
		l := [][]*Pkg{set(s.f1), set(s.f3), set(s.f1, s.h)}[sym.Choose("import", 3)]
		var paths []string
		for _, p := range l {
			s.refresh(p)
			paths = append(paths, p.Path)
			want.insert(s.World, p)
		}
		op = func() error { return s.M.AddPackages("a", paths, false) }
	case 2:
		s.refresh(s.d)
		e := want.get("foo")
		if e == nil || !has(e.avail, s.f1.ID) || !has(e.avail, s.f2.ID) {
			return
		}
		if !has(e.deltas, s.d.ID) {
			e.deltas = append(e.deltas, s.d.ID)
		}
		if sym.Choose("reference", 2) == 1 {
			if pre.pool(s.d.ID) == nil {
				return
			}
			op = func() error { return s.M.RefDelta("a", s.d.ID) }
		} else {
			op = func() error {
				return s.M.AddDelta("a", s.d.Path, &core.DeltaInformation{FromID: s.f1.ID, ToID: s.f2.ID})
			}
		}
	case 3:
		full := sym.Choose("full", 2) == 1
		target = "c"
		if !full {
			for _, e := range want.entries {
				e.avail, e.deltas = []string{e.pub}, nil
			}
		}
		assets("a")
		op = func() error { return s.M.CloneRepo("a", "c", full) }
	case 4:
		for _, e := range listingOf(pre.repo("b")).entries {
			mine := want.get(e.name)
			if mine != nil && s.byID(e.pub).Release < s.byID(mine.pub).Release {
				return
			}
			if mine == nil || s.byID(e.pub).Release > s.byID(mine.pub).Release {
				want.insert(s.World, s.byID(e.pub))
			}
		}
		assets("b")
		op = func() error { _, err := s.M.PullRepo("b", "a"); return err }
	case 5:
		n := 0
		for _, e := range listingOf(pre.repo("b")).entries {
			for _, id := range e.avail {
				if s.byID(id).Source == "foo" {
					n++
					want.insert(s.World, s.byID(id))
				}
			}
		}
		if n == 0 {
			return
		}
		op = func() error { return s.M.CopySource("b", "a", "foo", 0, false) }
	case 6:
		target, want = "c", &listing{}
		op = func() error { return s.M.CreateRepo("c") }
	}
	again := false
	op2 := func() error {
		if again && target == "c" {
			// a half-made repository is deleted before it is repeated
			if _, err := s.M.GetRepo("c"); err == nil {
				if err := s.M.DeleteRepo("c"); err != nil {
					return err
				}
			}
		}
		again = true
		return op()
	}
	finished := func(what string) {
		post := s.snap()
		expect(post.repo(target), want, what)
		s.checkFiles(post)
		s.checkKept(before, what+" changes no published package file")
		others(pre, post, target, what)
		for _, n := range sortedKeys(asset) {
			sym.Assert(content(filepath.Join(s.assetDir(target), n)) == asset[n], what+": the assets are those of the source")
		}
		var tips []string
		for _, e := range want.entries {
			tips = append(tips, e.pub)
		}
		sym.Assert(sameSet(s.indexed(target), tips), what+": the published index is that of the listing")
	}
	if !s.disturb(op2, fault, false, func() {
		finished("an operation that succeeds")
		s.checkRefs(s.snap())
	}) {
		return
	}
	if !fault || sym.Bool("look") {
		mid := s.snap()
		s.checkFiles(mid)
		s.checkKept(before, crash+" changes no published package file")
		others(pre, mid, target, "after "+crash)
	}
	sym.Assert(op2() == nil, "the interrupted operation can be repeated")
	finished("repeating the operation")
	sym.Reach("repeated")
}

// HRemoveCrash: a removal, trim or deletion in which the process dies at any
// operation, and its repetition after a restart.
func HRemoveCrash() { interruptedRemoval(false) }

// HRemoveFault: the same operations when any one of their file or database
// operations fails, and their repetition in the same process.
func HRemoveFault() { interruptedRemoval(true) }

func interruptedRemoval(fault bool) {
	s := newScene(true)
	s.state("a", set(s.f1), set(s.f1, s.f2, s.f3, s.d, s.e), set(s.f1, s.f2, s.g, s.h, s.d))
	s.state("b", set(), set(s.f1, s.f2, s.d))
	pre := s.snap()
	gone := false
	want := listingOf(pre.repo("a"))
	var op func() error
	switch sym.Choose("op", 4) {
	case 0:
		rel := sym.Int("rel", 0, 9)
		for _, e := range listingOf(pre.repo("a")).entries {
			for _, id := range e.avail {
				if s.byID(id).Source == "foo" && (rel == 0 || s.byID(id).Release == rel) {
					want.remove(s.World, id)
				}
			}
		}
		op = func() error { return s.M.RemoveSource("a", "foo", rel) }
	case 1:
		for _, e := range listingOf(pre.repo("a")).entries {
			for _, id := range e.avail {
				if id != e.pub {
					want.remove(s.World, id)
				}
			}
		}
		op = func() error { return s.M.TrimPackages("a", 1) }
	case 2:
		s.distribution("a", "foo")
		for _, e := range listingOf(pre.repo("a")).entries {
			if e.name == "foo" || e.name == "foo-dbginfo" {
				for _, id := range e.avail {
					want.remove(s.World, id)
				}
			}
		}
		op = func() error { return s.M.TrimObsolete("a") }
	case 3:
		gone = true
		op = func() error { return s.M.DeleteRepo("a") }
	}
	// a removal of nothing is refused
	if !s.disturb(op, fault, !gone && unchanged(pre.repo("a"), want), func() {
		post := s.snap()
		s.checkCounts(post) // a file that cannot be deleted may stay behind
		s.checkFiles(post)
		others(pre, post, "a", "after a removal that succeeds")
		if gone {
			sym.Assert(post.repo("a") == nil, "a deletion that succeeds deletes the repository")
		} else {
			expect(post.repo("a"), want, "a removal that succeeds")
			var tips []string
			for _, e := range want.entries {
				tips = append(tips, e.pub)
			}
			sym.Assert(sameSet(s.indexed("a"), tips), "the index published by a removal that succeeds is that of the listing")
		}
	}) {
		return
	}
	if !fault || sym.Bool("look") {
		mid := s.snap()
		s.checkFiles(mid)
		others(pre, mid, "a", "after the interruption")
	}
	err := op()
	post := s.snap()
	s.checkFiles(post)
	others(pre, post, "a", "after the repetition")
	if gone {
		sym.Assert(post.repo("a") == nil, "a repeated deletion completes")
		sym.Assert(s.M.CreateRepo("a") == nil, "the repository can be created again after an interrupted deletion")
		want = &listing{}
		sym.Reach("deleted")
	} else {
		if err == nil {
			sym.Reach("repeated")
		}
		expect(post.repo("a"), want, "repeated removal")
	}
	// what was removed can be uploaded again
	n := 3
	if fault && sym.Tier() == 0 {
		n = 1
	}
	again := []*Pkg{s.f1, s.f2, s.h}[sym.Choose("upload again", n)]
	if e := want.get(again.Name); e != nil && s.byID(e.pub).Release > again.Release {
		return
	}
	s.refresh(again)
	want.insert(s.World, again)
	sym.Assert(s.add("a", false, again) == nil, "a package can be imported again after an interrupted removal")
	post = s.snap()
	s.checkFiles(post)
	expect(post.repo("a"), want, "importing again")
	others(pre, post, "a", "after importing again")
	sym.Reach("imported again")
}

// unchanged: the listing has as many versions as before.
func unchanged(r *RepoSnap, l *listing) bool {
	n := 0
	for _, e := range l.entries {
		n += len(e.avail)
	}
	return n == len(r.available())
}
