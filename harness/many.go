package vharness

import (
	"fmt"

	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HManyImport", HManyImport)
	add("HManyClone", HManyClone)
	add("HManyPull", HManyPull)
	add("HManyCopy", HManyCopy)
	add("HManyRemove", HManyRemove)
	add("HManyTrim", HManyTrim)
	add("HManyObsolete", HManyObsolete)
	add("HManyIndex", HManyIndex)
}

// many is a repository with a lot of packages of one source, every third of
// them in two versions with a delta, or has a lot of versions of one name, the
// last but one of any release.
type many struct {
	*scene
	first, second, deltas, versions []*Pkg
}

func newMany(names, any bool) *many {
	m := &many{scene: &scene{World: newWorld(), seen: map[string][]string{}}}
	must(m.M.CreateRepo("a"))
	k := []int{11, 17, 33, 65, 129}[sym.Choose("number", 4+sym.Tier())]
	if names {
		for i := 0; i < k; i++ {
			n := fmt.Sprintf("p%02d", i)
			p := m.pkg(n+"-1.eopkg", n, "many", "1", 1)
			m.first = append(m.first, p)
			if i%3 == 0 {
				q := m.pkg(n+"-2.eopkg", n, "many", "2", 2)
				m.second = append(m.second, q)
				m.deltas = append(m.deltas, m.delta(n+"-1-2.delta.eopkg", p, q))
			}
		}
	} else {
		for i := 0; i < k; i++ {
			r := i + 1
			if i == k-2 && any {
				r = sym.Int("release", 0, 1<<30)
				sym.Assume(r < k-1 || r > k) // releases differ from the newest
			}
			m.versions = append(m.versions, m.pkg(fmt.Sprintf("v-%d.eopkg", i+1), "v", "one", "1", r))
		}
	}
	all := append(append(append([]*Pkg{}, m.first...), m.second...), m.versions...)
	must(m.add("a", false, all...))
	for _, d := range m.deltas {
		must(m.addDelta("a", d))
	}
	return m
}

// lists asserts what a repository lists, and that all is consistent.
func (m *many) lists(repo string, ps, deltas []*Pkg) *Snap {
	s := m.snap()
	sym.Assert(sameSet(s.repo(repo).available(), ids(ps)), "exactly the packages it should have are listed")
	sym.Assert(sameSet(s.repo(repo).deltas(), ids(deltas)), "exactly the deltas it should have are listed")
	m.checkRefs(s)
	m.checkFiles(s)
	m.checkTips(s)
	sym.Reach("done")
	return s
}

func plus(l ...[]*Pkg) (out []*Pkg) {
	for _, p := range l {
		out = append(out, p...)
	}
	return
}

// HManyImport: C04, a large import.
func HManyImport() {
	m := newMany(sym.Choose("names", 2) == 1, true)
	m.lists("a", plus(m.first, m.second, m.versions), m.deltas)
}

// HManyClone: C05, a clone of a large repository.
func HManyClone() {
	m := newMany(sym.Choose("names", 2) == 1, false)
	full := sym.Choose("full", 2) == 1
	sym.Assert(m.M.CloneRepo("a", "b", full) == nil, "a clone succeeds")
	if full {
		m.lists("b", plus(m.first, m.second, m.versions), m.deltas)
		return
	}
	m.lists("b", m.tips(), nil)
}

// tips are the newest versions.
func (m *many) tips() []*Pkg {
	var out []*Pkg
	for i, p := range m.first {
		if i%3 != 0 {
			out = append(out, p)
		}
	}
	out = append(out, m.second...)
	if n := len(m.versions); n > 0 {
		out = append(out, m.versions[n-1])
	}
	return out
}

// HManyPull: C06, a pull of a lot of packages.
func HManyPull() {
	m := newMany(true, false)
	must(m.M.CreateRepo("b"))
	var have []*Pkg
	if sym.Choose("has some", 2) == 1 {
		have = m.first[:len(m.first)/2]
		must(m.add("b", false, have...))
	}
	names, err := m.M.PullRepo("a", "b")
	sym.Assert(err == nil, "a pull succeeds")
	want := have
	var changed []string
	for _, p := range m.tips() {
		if !has(ids(have), p.ID) {
			want = append(want[:len(want):len(want)], p)
			changed = append(changed, p.Name)
		}
	}
	sym.Assert(sameSet(names, changed), "a pull reports what it brought")
	m.lists("b", want, nil)
}

// HManyCopy: C07, copying a source with a lot of packages.
func HManyCopy() {
	m := newMany(sym.Choose("names", 2) == 1, false)
	must(m.M.CreateRepo("b"))
	src := map[bool]string{true: "many", false: "one"}[len(m.first) > 0]
	sym.Assert(m.M.CopySource("a", "b", src, -1, false) == nil, "a copy succeeds")
	m.lists("b", plus(m.first, m.second, m.versions), nil)
}

// HManyRemove: C08, removing a source with a lot of packages.
func HManyRemove() {
	m := newMany(sym.Choose("names", 2) == 1, false)
	src := map[bool]string{true: "many", false: "one"}[len(m.first) > 0]
	sym.Assert(m.M.RemoveSource("a", src, -1) == nil, "a removal succeeds")
	sym.Assert(len(m.lists("a", nil, nil).Pool) == 0, "nothing stays in the pool")
}

// HManyTrim: C09, trimming a lot of packages or versions.
func HManyTrim() {
	m := newMany(sym.Choose("names", 2) == 1, false)
	keep := 1 + sym.Choose("keep", 2)*2
	sym.Assert(m.M.TrimPackages("a", keep) == nil, "trimming succeeds")
	if n := len(m.versions); n > 0 {
		m.lists("a", m.versions[n-keep:], nil)
	} else if keep == 1 {
		m.lists("a", m.tips(), nil)
	} else {
		m.lists("a", plus(m.first, m.second), m.deltas)
	}
}

// HManyObsolete: C10, a lot of obsolete packages.
func HManyObsolete() {
	m := newMany(true, false)
	var obs []string
	var left, deltas []*Pkg
	for i, p := range m.first {
		if i != 1 && i != len(m.first)-1 {
			obs = append(obs, p.Name)
		} else {
			left = append(left, p)
			if i%3 == 0 {
				left = append(left, m.second[i/3])
				deltas = append(deltas, m.deltas[i/3])
			}
		}
	}
	m.distribution("a", obs...)
	sym.Assert(m.M.TrimObsolete("a") == nil, "trimming obsolete packages succeeds")
	m.lists("a", left, deltas)
}

// HManyIndex: C12, the index of a large repository.
func HManyIndex() {
	m := newMany(sym.Choose("names", 2) == 1, true)
	sym.Assert(m.M.Index("a") == nil, "indexing succeeds")
	m.checkIndex(m.lists("a", plus(m.first, m.second, m.versions), m.deltas).repo("a"), nil)
}
