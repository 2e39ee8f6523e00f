package vharness

import (
	"os"
	"path/filepath"

	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HPullSelf", HPullSelf)
	add("HCopySelf", HCopySelf)
}

// self is a repository with some assets.
func self() (*scene, func(what string)) {
	s := newScene(false)
	s.state("a", s.sets()...)
	s.state("b", set(), set(s.f1, s.f2, s.d))
	names := []string{"distribution.xml", "components.xml", "groups.xml"}
	mask := []int{0, 7, 2}[sym.Choose("assets", 3)]
	text := func(i int) string {
		return []string{"<PISI><SourceName>A</SourceName></PISI>", "<PISI><Components></Components></PISI>", "<PISI><Groups></Groups></PISI>"}[i]
	}
	for i, n := range names {
		if mask&(1<<i) != 0 {
			must(os.WriteFile(filepath.Join(s.assetDir("a"), n), []byte(text(i)), 0644))
		}
	}
	pre := s.snap()
	return s, func(what string) {
		expectSame(pre, s.snap(), what)
		s.expectFiles(pre.repo("a"), what)
		for i, n := range names {
			want := "(missing)"
			if mask&(1<<i) != 0 {
				want = text(i)
			}
			sym.Assert(content(filepath.Join(s.assetDir("a"), n)) == want, what+": the assets stay as they are")
		}
		s.checkIndex(pre.repo("a"), nil)
		s.sumsMatch("a")
	}
}

// HPullSelf: C06, a repository pulled into itself has nothing to pull.
func HPullSelf() {
	s, same := self()
	changed, err := s.M.PullRepo("a", "a")
	sym.Assert(err == nil, "a pull succeeds")
	sym.Assert(len(changed) == 0, "a pull reports exactly the names it changed")
	same("pulling a repository into itself")
	sym.Reach("pulled")
}

// HCopySelf: C07, a source copied to the repository it is in changes nothing.
func HCopySelf() {
	s, same := self()
	src := []string{"foo", "far", "bar"}[sym.Choose("source", 3)]
	must(s.M.Index("a"))
	pre := s.snap().repo("a")
	known := false
	for _, e := range pre.Entries {
		for _, id := range e.Available {
			known = known || s.byID(id).Source == src
		}
	}
	err := s.M.CopySource("a", "a", src, -1, sym.Choose("skip", 2) == 1)
	sym.Assert((err == nil) == known, "copying succeeds exactly when a version matches")
	same("copying a source to where it is")
	sym.Reach("copied")
}
