package vharness

import (
	"path/filepath"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HTogether", HTogether)
	add("HTogetherPooled", HTogetherPooled)
	add("HTogetherIndex", HTogetherIndex)
	add("HTogetherListing", HTogetherListing)
	add("HTogetherPublish", HTogetherPublish)
}

// HTogether: C33, what runs on the background queue, on the main queue and in
// requests at the same time.
func HTogether() { together(false, false) }

// HTogetherPooled: C33, the same where the delta a job is about to make is in
// the pool already, for another repository.
func HTogetherPooled() { together(true, false) }

// HTogetherIndex: C33, the same with jobs that publish the index afterwards.
func HTogetherIndex() { together(false, true) }

func together(pooled, index bool) {
	w := &deltaWorld{World: newWorld()}
	for _, r := range []string{"a", "b"} {
		must(w.M.CreateRepo(r))
	}
	x := item{path: "usr/x", hash: "0", kind: 'f', content: "x"}
	y := item{path: "usr/y", hash: "0", kind: 'f', content: "y"}
	if !pooled && !index {
		y.hash = sym.Chars("hash", "0123456789abcdef", 1)
	}
	z := item{path: "usr/z", hash: "z", kind: 'f', content: "z"}
	f8, f11 := w.payload("foo", 8, "1", []item{y}), w.payload("foo", 11, "1", []item{x, z})
	bar1, bar2 := w.payload("bar", 1, "1", []item{x}), w.payload("bar", 2, "1", []item{x, z})
	f12 := w.payload("foo", 12, "1", []item{x})
	baz := w.payload("baz", 1, "1", nil)
	bar3 := w.payload("bar", 3, "1", []item{x, {path: "usr/w", hash: "w", kind: 'f', content: "w"}})
	n := 0
	if pooled || index {
		n = []int{2, 3, 4, 5, 8, 11, 0, 6}[sym.Choose("operation", 8)]
	} else {
		n = sym.Choose("operation", 15)
	}
	must(w.add("a", false, f8, f11, bar1, bar2))
	must(w.add("b", false, f8, f11, bar1, bar2, baz))
	avail := map[string][]string{}
	for _, r := range []string{"a", "b"} {
		avail[r] = []string{f8.ID, f11.ID, bar1.ID, bar2.ID}
	}
	avail["b"] = append(avail["b"], baz.ID)
	newer := n == 6 || n == 14 // b has a newer version for a
	if newer {
		must(w.add("b", false, bar3))
		avail["b"] = append(avail["b"], bar3.ID)
	}
	useful := y.hash == "0"
	known := "foo-8-11-1-x86_64.delta.eopkg"
	dbar := "bar-1-2-1-x86_64.delta.eopkg"

	deltas := func(repo, name string) func() error {
		j := jobs.NewDeltaJob(repo, name)
		if index {
			j = jobs.NewDeltaIndexJob(repo, name)
		}
		h, err := jobs.NewJobHandler(j)
		must(err)
		return func() error { return h.Execute(nil, w.M) }
	}
	without := func(repo string, ps ...*Pkg) {
		var l []string
		for _, id := range avail[repo] {
			if !has(ids(ps), id) {
				l = append(l, id)
			}
		}
		avail[repo] = l
	}
	job1 := 0
	if index {
		job1 = sym.Choose("job", 2)
	} else if !pooled {
		job1 = sym.Choose("job", 3)
	}
	one := []struct{ repo, name string }{{"a", "foo"}, {"b", "foo"}, {"a", "bar"}}[job1]
	job := deltas(one.repo, one.name)
	// what is possible once everything is over
	may := map[string][]string{}
	must1 := map[string][]string{}
	grant := func(repo, name string) {
		d := dbar
		if name == "foo" {
			d = known
			if !useful {
				return
			}
		}
		may[repo] = append(may[repo], d)
		must1[repo] = append(must1[repo], d)
	}
	grant(one.repo, one.name)
	if pooled {
		must(deltas("b", "foo")())
		grant("b", "foo")
	}
	var other func() error
	jobMayFail, refused, removes := false, false, ""
	switch n {
	case 0: // the same job again
		other = deltas(one.repo, one.name)
	case 1: // the same in the other repository
		r := map[string]string{"a": "b", "b": "a"}[one.repo]
		other = deltas(r, one.name)
		grant(r, one.name)
	case 2:
		w.refresh(f12)
		other = func() error { return w.M.AddPackages("a", []string{f12.Path}, false) }
		avail["a"] = append(avail["a"], f12.ID)
		if useful {
			may["a"] = append(may["a"], "foo-8-12-1-x86_64.delta.eopkg")
		}
		may["a"] = append(may["a"], "foo-11-12-1-x86_64.delta.eopkg")
		must1["a"] = nil
		if one.repo == "a" && one.name == "bar" {
			must1["a"] = []string{dbar}
		}
	case 3, 4:
		r := []string{"a", "b"}[n-3]
		rel := sym.Int("release", -1, 13)
		other = func() error { return w.M.RemoveSource(r, "foo", rel) }
		removes = r
		if rel < 1 {
			without(r, f8, f11)
		} else if rel == 8 {
			without(r, f8)
		} else if rel == 11 {
			without(r, f11)
		} else {
			removes, refused = "", true
		}
	case 5:
		keep := sym.Int("keep", -1, 3)
		other = func() error { return w.M.TrimPackages("a", keep) }
		if keep < 1 {
			refused = true
		} else if keep < 2 {
			without("a", f8, bar1)
			removes = "a"
		}
	case 6:
		other = func() error { _, err := w.M.PullRepo("b", "a"); return err }
		avail["a"] = append(avail["a"], baz.ID, bar3.ID)
	case 14:
		other = func() error { return w.M.CopySource("b", "a", "bar", -1, false) }
		avail["a"] = append(avail["a"], bar3.ID)
	case 7:
		other = func() error { return w.M.CloneRepo("a", "c", true) }
		avail["c"] = avail["a"]
		may["c"] = may["a"]
	case 8:
		other = func() error { return w.M.DeleteRepo("b") }
		delete(avail, "b")
		removes = "b"
	case 9:
		other = func() error { return w.M.CreateRepo("c") }
		avail["c"] = nil
	case 10:
		other = func() error { return w.M.CopySource("b", "a", "baz", -1, false) }
		avail["a"] = append(avail["a"], baz.ID)
	case 11:
		other = func() error { return w.M.Index("a") }
	case 12: // a request
		other = func() error {
			l, err := w.M.GetRepos()
			sym.Assert(err != nil || len(l) == 2, "all repositories are listed")
			return err
		}
	case 13:
		other = func() error { _, err := w.M.GetPoolItems(); return err }
	}
	if newer && one.repo == "a" && one.name == "bar" {
		may["a"] = append(may["a"], "bar-1-3-1-x86_64.delta.eopkg", "bar-2-3-1-x86_64.delta.eopkg")
		must1["a"] = nil
	}
	if removes == one.repo {
		jobMayFail = true
	}
	if removes != "" {
		must1[removes] = nil
	}
	if index || sym.Choose("warm", 2) == 1 {
		w.restart()
		for _, r := range []string{"a", "b"} {
			_, err := w.M.GetPackages(r, "foo")
			must(err)
		}
	} else {
		w.restart()
	}
	pre := 1
	if sym.Tier() > 0 && (n < 2 || n == 3 || n == 8) && one.repo == "a" {
		pre = 2
	}
	var err1, err2 error
	sym.Par(pre, func() { err1 = job() }, func() { err2 = other() })
	sym.Assert(err1 == nil || jobMayFail, "a delta job is not disturbed by others")
	sym.Assert((err2 != nil) == refused, "an operation is not disturbed by a delta job")
	s := w.snap()
	for _, r := range []string{"a", "b", "c"} {
		l, ok := avail[r]
		sym.Assert((s.repo(r) != nil) == ok, "exactly the repositories that should exist do")
		if !ok {
			sym.Assert(!exists(w.repoDir(r)), "a deleted repository is gone")
			continue
		}
		sym.Assert(sameSet(s.repo(r).available(), l), "every repository lists the versions it should")
		got := s.repo(r).deltas()
		for _, d := range must1[r] {
			sym.Assert(has(got, d), "a delta that was built is listed")
		}
		for i, d := range got {
			sym.Assert(has(may[r], d) && (i == 0 || got[i-1] != d), "only possible deltas are listed, once")
			if w.byID(d) == nil {
				e := s.pool(d)
				w.Pkgs = append(w.Pkgs, &Pkg{ID: d, Name: e.Meta.Name, Source: e.Meta.Source.Name, Data: []byte(content(w.poolFile(e.Meta, d))), From: e.Delta.FromID, To: e.Delta.ToID})
			}
		}
	}
	w.checkRefs(s)
	w.checkFiles(s)
	w.checkTips(s)
	if index {
		for _, r := range []string{"a", "b"} {
			if p := filepath.Join(w.repoDir(r), "eopkg-index.xml"); s.repo(r) != nil && exists(p) {
				w.checkIndex(s.repo(r), nil)
				w.sumsMatch(r)
			}
		}
	}
	if s.repo(one.repo).entry(one.name) != nil {
		sym.Assert(job() == nil, "a delta job can be repeated")
	}
	sym.Reach("done")
}

// HTogetherListing: C33, a listing request at any step of an operation on the
// repositories shows what was or will be, and disturbs nothing.
func HTogetherListing() {
	s := &scene{World: newWorld(), seen: map[string][]string{}}
	must(s.M.CreateRepo("a"))
	must(s.M.CreateRepo("b"))
	f1, f2 := s.pkg("foo-1.eopkg", "foo", "foo", "1", 1), s.pkg("foo-2.eopkg", "foo", "foo", "2", 2)
	g, h := s.pkg("foo-dbginfo-1.eopkg", "foo-dbginfo", "foo", "1", 1), s.pkg("bar-1.eopkg", "bar", "far", "1", 3)
	d := s.delta("foo-1-2.delta.eopkg", f1, f2)
	s.fill("a", f1, f2, g)
	s.fill("b", f1, f2, h, d)
	ops := []func() error{
		func() error { return s.M.CreateRepo("c") },
		func() error { return s.M.DeleteRepo("b") },
		func() error { return s.add("a", false, h) },
		func() error { return s.addDelta("a", d) },
		func() error { return s.M.CloneRepo("b", "c", true) },
		func() error { return s.M.CloneRepo("b", "c", false) },
		func() error { _, err := s.M.PullRepo("b", "a"); return err },
		func() error { return s.M.CopySource("b", "a", "far", -1, false) },
		func() error { return s.M.RemoveSource("b", "foo", sym.Int("release", -1, 2)) },
		func() error { return s.M.TrimPackages("b", 1) },
		func() error { return s.M.TrimObsolete("a") },
		func() error { return s.M.Index("a") },
	}
	n := sym.Choose("operation", len(ops))
	if n == 10 {
		s.distribution("a", "foo")
	}
	pre := s.snap()
	if sym.Choose("warm", 2) == 1 {
		for _, r := range []string{"a", "b"} {
			_, err := s.M.GetRepo(r)
			must(err)
		}
	}
	var repos []*core.Repository
	var items []*core.PoolEntry
	var err1, err2 error
	request := func() { repos, err2 = s.M.GetRepos() }
	which := sym.Choose("request", 2)
	if which == 1 {
		request = func() { items, err2 = s.M.GetPoolItems() }
	}
	alone := n != 8 // removing a release that is not there is refused
	sym.Par(1+sym.Tier(), func() { err1 = ops[n]() }, request)
	sym.Assert(err1 == nil || !alone, "an operation is not disturbed by a request")
	sym.Assert(err2 == nil, "a listing is not disturbed by an operation")
	post := s.snap()
	sym.Assert(err1 == nil || sym.And(len(post.Repos) == len(pre.Repos), len(post.Pool) == len(pre.Pool)), "a refused operation changes nothing")
	count := map[string]int{}
	if which == 0 {
		for _, r := range repos {
			count[r.ID]++
			sym.Assert(pre.repo(r.ID) != nil || post.repo(r.ID) != nil, "only repositories are listed")
		}
		for _, r := range pre.Repos {
			sym.Assert(post.repo(r.ID) == nil || count[r.ID] == 1, "a repository that stays is listed")
		}
		for _, c := range count {
			sym.Assert(c == 1, "a repository is listed once")
		}
		sym.Reach("repositories")
	} else {
		refs := func(e *core.PoolEntry) uint64 {
			if e == nil {
				return 0
			}
			return e.RefCount
		}
		for _, e := range items {
			count[e.Name]++
			x, y := refs(pre.pool(e.Name)), refs(post.pool(e.Name))
			if x > y {
				x, y = y, x
			}
			sym.Assert(e.RefCount > 0 && x <= e.RefCount && e.RefCount <= y, "a listed count is one the operation passes through")
		}
		for _, e := range pre.Pool {
			sym.Assert(post.pool(e.Name) == nil || count[e.Name] == 1, "a package that stays in the pool is listed")
		}
		for _, c := range count {
			sym.Assert(c == 1, "a package is listed once")
		}
		sym.Reach("pool")
	}
	s.checkRefs(post)
	s.checkFiles(post)
	s.checkTips(post)
}

// HTogetherPublish: C33, publishing the index of a repository while another
// operation changes it.
func HTogetherPublish() {
	s := &scene{World: newWorld(), seen: map[string][]string{}}
	must(s.M.CreateRepo("a"))
	must(s.M.CreateRepo("b"))
	f1, f2 := s.pkg("foo-1.eopkg", "foo", "foo", "1", 1), s.pkg("foo-2.eopkg", "foo", "foo", "2", 2)
	g, h := s.pkg("bar-dbginfo-1.eopkg", "bar-dbginfo", "bar", "1", 1), s.pkg("baz-1.eopkg", "baz", "baz", "1", 1)
	s.fill("a", f1, f2, g)
	s.fill("b", f1, h)
	n := sym.Choose("operation", 7)
	obs := []string{"bar"}
	if sym.Choose("obsolete", 2) == 1 {
		obs = []string{"foo"}
	}
	s.distribution("a", obs...)
	left := map[string][]string{"a": {f1.ID, f2.ID, g.ID}, "b": {f1.ID, h.ID}}
	var op func() error
	refused := false
	switch n {
	case 0:
		op = func() error { return s.M.TrimObsolete("a") }
		if obs[0] == "foo" {
			left["a"] = []string{g.ID}
		} else {
			left["a"] = []string{f1.ID, f2.ID}
		}
	case 1:
		op = func() error { return s.M.Index("a") }
	case 2:
		op = func() error { return s.M.RemoveSource("a", "foo", 1) }
		left["a"] = []string{f2.ID, g.ID}
	case 3:
		op = func() error { return s.M.TrimPackages("a", 1) }
		left["a"] = []string{f2.ID, g.ID}
	case 4:
		op = func() error { return s.add("a", false, h) }
		left["a"] = append(left["a"], h.ID)
	case 5:
		op = func() error { return s.M.CopySource("b", "a", "baz", -1, false) }
		left["a"] = append(left["a"], h.ID)
	case 6:
		op = func() error { return s.M.DeleteRepo("a") }
		delete(left, "a")
	}
	if sym.Choose("published", 2) == 1 {
		must(s.M.Index("a"))
	}
	if sym.Choose("warm", 2) == 0 {
		s.restart()
	}
	var err1, err2 error
	sym.Par(1+sym.Tier(), func() { err1 = s.M.Index("a") }, func() { err2 = op() })
	// a package or repository may go away while it is being published
	sym.Assert(err1 == nil || n == 0 || n == 2 || n == 3 || n == 6, "publishing is not disturbed by another operation")
	sym.Assert((err2 != nil) == refused, "an operation is not disturbed by publishing")
	post := s.snap()
	for _, r := range []string{"a", "b"} {
		l, ok := left[r]
		sym.Assert((post.repo(r) != nil) == ok, "exactly the repositories that should exist do")
		if ok {
			sym.Assert(sameSet(post.repo(r).available(), l), "every repository lists the versions it should")
		}
	}
	s.checkRefs(post)
	s.checkFiles(post)
	s.checkTips(post)
	if post.repo("a") != nil {
		if exists(filepath.Join(s.repoDir("a"), "eopkg-index.xml")) {
			s.sumsMatch("a")
			sym.Reach("published")
		}
		must(s.M.Index("a"))
		s.checkIndex(s.snap().repo("a"), obs)
		s.sumsMatch("a")
	}
	sym.Reach("done")
}
