package vharness

import (
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HRemoveTied", HRemoveTied)
	add("HTrimTied", HTrimTied)
	add("HCopyTied", HCopyTied)
}

// tied is a repository with two versions of one release.
func tied() *scene {
	s := newScene(false)
	sym.Assume(s.f1.Release == s.f2.Release)
	s.state("a", set(s.f1, s.f2), set(s.f2, s.f1, s.h), set(s.f1, s.f2, s.f3, s.e, s.g), set(s.f2, s.f3, s.f1, s.h, s.h2))
	s.state("b", set(), set(s.f1))
	return s
}

func (s *scene) matching(r *RepoSnap, src string, rel int) (in, out []string) {
	for _, id := range r.available() {
		if p := s.byID(id); p.Source == src && (rel <= 0 || p.Release == rel) {
			in = append(in, id)
		} else {
			out = append(out, id)
		}
	}
	return
}

// HRemoveTied: C08, removals where two versions of a name have one release.
func HRemoveTied() {
	s := tied()
	src := []string{"foo", "far"}[sym.Choose("source", 2)]
	rel := sym.Int("rel", -1, maxRel())
	pre := s.snap()
	in, out := s.matching(pre.repo("a"), src, rel)
	err := s.M.RemoveSource("a", src, rel)
	post := s.snap()
	others(pre, post, "a", "remove")
	sym.Assert((err == nil) == (len(in) > 0), "a removal succeeds exactly when something matches")
	sym.Assert(sameSet(post.repo("a").available(), out), "remove: exactly the matching versions go away")
	var ds []string
	for _, d := range pre.repo("a").deltas() {
		if !has(in, s.byID(d).From) && !has(in, s.byID(d).To) {
			ds = append(ds, d)
		}
	}
	sym.Assert(sameSet(post.repo("a").deltas(), ds), "remove: exactly the deltas of removed versions go away")
	s.checkTips(post)
	s.checkRefs(post)
	s.expectFiles(post.repo("a"), "remove")
	sym.Reach("removed")
}

// HCopyTied: C07, copies where two versions of a name have one release.
func HCopyTied() {
	s := tied()
	src := []string{"foo", "far"}[sym.Choose("source", 2)]
	rel := sym.Int("rel", -1, maxRel())
	pre := s.snap()
	in, _ := s.matching(pre.repo("a"), src, rel)
	err := s.M.CopySource("a", "b", src, rel, true)
	post := s.snap()
	others(pre, post, "b", "copy")
	sym.Assert((err == nil) == (len(in) > 0), "copying succeeds exactly when a version matches")
	want := in
	for _, id := range pre.repo("b").available() {
		if !has(want, id) {
			want = append(want, id)
		}
	}
	sym.Assert(sameSet(post.repo("b").available(), want), "copy: exactly the matching versions are added")
	s.checkTips(post)
	s.checkRefs(post)
	s.expectFiles(post.repo("b"), "copy")
	sym.Reach("copied")
}

// HTrimTied: C09, trims where two versions of a name have one release: which
// of them stays is open, unless one is published.
func HTrimTied() {
	s := tied()
	n := sym.Int("keep", 1, 4)
	pre := s.snap()
	sym.Assert(s.M.TrimPackages("a", n) == nil, "a trim succeeds")
	post := s.snap()
	others(pre, post, "a", "trim")
	sym.Assert(len(post.repo("a").Entries) == len(pre.repo("a").Entries), "a trim never drops a name")
	for _, e := range listingOf(pre.repo("a")).entries {
		now := post.repo("a").entry(e.name)
		sym.Assert(now != nil && has(now.Available, e.pub), "a trim never drops the published version")
		low, k := 99, len(now.Available)
		for _, id := range now.Available {
			sym.Assert(has(e.avail, id), "a trim adds nothing")
			if r := s.byID(id).Release; r < low && id != e.pub {
				low = r
			}
		}
		for _, id := range e.avail {
			sym.Assert(has(now.Available, id) || s.byID(id).Release <= low, "a trim never keeps an older version instead of a newer one")
		}
		sym.Assert(k <= n+1, "a trim keeps as many versions as asked, and the published one")
		sym.Assert(k >= n || k == len(e.avail), "a trim removes no more than it has to")
	}
	s.checkTips(post)
	s.checkRefs(post)
	s.expectFiles(post.repo("a"), "trim")
	sym.Reach("done")
}
