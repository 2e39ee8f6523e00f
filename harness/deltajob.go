package vharness

import (
	"os"
	"path/filepath"
	"strconv"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HDeltaJob", HDeltaJob)
	add("HDeltaRetry", HDeltaRetry)
	add("HDeltaName", HDeltaName)
}

// What is known of the delta from an old version already.
const (
	deltaNone = iota
	deltaListed
	deltaPooled // by another repository
	deltaFailed
	deltaStates
)

// oldVersion is an older version of foo, and its delta to the newest one.
type oldVersion struct {
	pkg        *Pkg
	mismatched bool // built for another distribution release
	pointless  bool
	items      []item // what of the newest one it cannot supply
	was        int
	delta      string
	known      *Pkg // the delta, when there is one already
}

type deltaWorld struct {
	*World
	olds []*oldVersion
	tip  *Pkg
}

func (w *World) payload(name string, release int, dist string, its []item) *Pkg {
	r := strconv.Itoa(release)
	id := name + "-1." + r + "-" + r + "-" + dist + "-x86_64.eopkg"
	p := &Pkg{ID: id, Name: name, Source: name, Version: "1." + r, Release: release, Path: filepath.Join(w.Root, "in", id)}
	eopkg(p.Path, deltaMeta(name, r, dist, "x86_64"), nil, its)
	b, err := os.ReadFile(p.Path)
	must(err)
	p.Data = b
	w.Pkgs = append(w.Pkgs, p)
	return p
}

// twoFiles are two files with any hashes.
func twoFiles(label string) (its []item) {
	for _, n := range []string{"x", "y"} {
		its = append(its, item{path: "usr/" + n, hash: sym.Chars(label+" "+n, "0123456789abcdef", 1), kind: 'f', content: "content " + label + n})
	}
	return
}

// newDeltaWorld makes a repository with a few versions of foo, in which some
// deltas are listed, pooled or known to be impossible.
func newDeltaWorld(n int, state func(i int) int) *deltaWorld {
	w := &deltaWorld{World: newWorld()}
	must(w.M.CreateRepo("a"))
	must(w.M.CreateRepo("b"))
	top := twoFiles("tip")
	for i := 0; i < n; i++ {
		l := strconv.Itoa(i)
		o := &oldVersion{was: deltaNone, mismatched: sym.Choose("mismatched"+l, 2) == 1}
		its := twoFiles("old" + l)
		if !o.mismatched {
			o.was = state(i)
			for _, t := range top {
				if !sym.Or(t.hash == its[0].hash, t.hash == its[1].hash) {
					o.items = append(o.items, t)
				}
			}
			o.pointless = len(o.items) == len(top)
		}
		o.pkg = w.payload("foo", 8+i, map[bool]string{true: "2", false: "1"}[o.mismatched], its)
		o.delta = "foo-" + strconv.Itoa(o.pkg.Release) + "-11-1-x86_64.delta.eopkg"
		w.olds = append(w.olds, o)
	}
	w.tip = w.payload("foo", 11, "1", top)
	bar, bar2 := w.payload("bar", 1, "1", nil), w.payload("bar", 2, "1", twoFiles("bar"))
	var all []*Pkg
	for _, o := range w.olds {
		all = append(all, o.pkg)
	}
	// the newest one first, or last
	if sym.Choose("order", 2) == 0 {
		all = append(all, w.tip)
	} else {
		all = append([]*Pkg{w.tip}, all...)
	}
	all = append(all, bar, bar2)
	must(w.add("a", false, all...))
	must(w.add("b", false, all...))
	for _, o := range w.olds {
		switch o.was {
		case deltaListed:
			o.known = w.World.delta(o.delta, o.pkg, w.tip)
			must(w.addDelta("a", o.known))
		case deltaPooled:
			o.known = w.World.delta(o.delta, o.pkg, w.tip)
			must(w.addDelta("b", o.known))
		case deltaFailed:
			must(w.M.MarkDeltaFailed(o.delta, &core.DeltaInformation{FromID: o.pkg.ID, ToID: w.tip.ID}))
		}
	}
	return w
}

// holds asserts that a delta built by a job has what its old version lacks.
func (w *deltaWorld) holds(o *oldVersion, file string) {
	_, got, _ := unpack(file, filepath.Join(w.Root, "payload.tar"))
	var want []string
	for _, i := range o.items {
		want = append(want, show(i.header(), i.content))
	}
	sym.Assert(sameSet(got, want), "the delta has what its old version cannot supply")
}

func (w *deltaWorld) run(index bool) error {
	e := jobs.NewDeltaJob("a", "foo")
	if index {
		e = jobs.NewDeltaIndexJob("a", "foo")
	}
	h, err := jobs.NewJobHandler(e)
	must(err)
	return h.Execute(nil, w.M)
}

// want is what the repository lists after the job, and whether it changed.
func (w *deltaWorld) want() (ids []string, added bool) {
	for _, o := range w.olds {
		switch {
		case o.known == nil && (o.was == deltaFailed || o.pointless || o.mismatched):
			continue
		case o.was != deltaListed:
			added = true
		}
		ids = append(ids, o.delta)
	}
	return
}

// check compares everything with the reference, after the job.
func (w *deltaWorld) check(before *Snap, now *Snap) {
	want, _ := w.want()
	a := now.repo("a")
	e := a.entry("foo")
	sym.Assert(e != nil && sameSet(e.Deltas, want), "the deltas listed are exactly those of the older versions to the newest one that are possible")
	was := before.repo("a").entry("foo")
	sym.Assert(sameSet(e.Available, was.Available) && e.Published == was.Published, "a delta job leaves the versions alone")
	sym.Assert(sameEntry(a.entry("bar"), before.repo("a").entry("bar")), "other packages are left alone")
	sym.Assert(sameRepo(now.repo("b"), before.repo("b")), "other repositories are left alone")
	for _, o := range w.olds {
		pe := now.pool(o.delta)
		sym.Assert(w.M.GetDeltaFailed(o.delta) == (o.was == deltaFailed || o.pointless && o.was == deltaNone), "impossible deltas, and no others, are recorded as such")
		if !has(want, o.delta) {
			continue
		}
		sym.Assert(pe != nil && pe.Delta != nil && pe.Delta.FromID == o.pkg.ID && pe.Delta.ToID == w.tip.ID &&
			pe.Delta.FromRelease == o.pkg.Release && pe.Delta.ToRelease == w.tip.Release, "a delta is recorded with the versions it is between")
		file := w.repoFile("a", pe.Meta, o.delta)
		if o.known == nil {
			w.holds(o, file)
			if w.byID(o.delta) == nil {
				w.Pkgs = append(w.Pkgs, &Pkg{ID: o.delta, Name: "foo", Source: "foo", From: o.pkg.ID, To: w.tip.ID, Release: 11, Version: "1.11", Data: []byte(content(file))})
			}
		}
	}
	w.checkRefs(now)
	w.checkFiles(now)
	for _, d := range []string{core.DeltaPathComponent, core.DeltaStagePathComponent} {
		sym.Assert(len(files(filepath.Join(w.Base, d))) == 0, "nothing is left in the working directories")
	}
}

// HDeltaJob: C26, delta jobs in every state.
func HDeltaJob() {
	n := sym.Choose("older versions", 3)
	if sym.Tier() > 0 && sym.Choose("three", 2) == 1 {
		n = 3
	}
	w := newDeltaWorld(n, func(i int) int { return sym.Choose("state"+strconv.Itoa(i), deltaStates) })
	before := w.snap()
	index := sym.Choose("index", 2) == 1
	sym.Assert(w.run(index) == nil, "a delta job succeeds")
	now := w.snap()
	w.check(before, now)
	_, added := w.want()
	if index && added {
		w.checkIndex(now.repo("a"), nil)
		sym.Reach("indexed")
	}
	sym.Assert(w.run(index) == nil, "a repeated delta job succeeds")
	after := w.snap()
	sym.Assert(sameRepo(after.repo("a"), now.repo("a")) && sameRepo(after.repo("b"), now.repo("b")) && len(after.Pool) == len(now.Pool), "a repeated delta job changes nothing")
	w.check(before, after)
	if added {
		sym.Reach("added")
	} else {
		sym.Reach("nothing to do")
	}
}

// HDeltaRetry: C26, a delta job that is interrupted or fails can be repeated.
func HDeltaRetry() {
	w := newDeltaWorld(1, func(i int) int { return []int{deltaNone, deltaPooled, deltaListed}[sym.Choose("state", 3)] })
	// what another repository has a delta for can be built
	sym.Assume(!(w.olds[0].was == deltaPooled && w.olds[0].pointless))
	before := w.snap()
	if sym.Choose("fault", 2) == 1 {
		var err error
		hit := sym.Fault(func() { err = w.run(true) })
		sym.Assert(err == nil || hit, "a delta job fails only when something failed")
		if hit {
			sym.Reach("failed")
		}
	} else if sym.Crash(func() { w.run(true) }) {
		w.M = nil
		w.open()
		sym.Reach("crashed")
	}
	sym.Assert(w.run(true) == nil, "a delta job succeeds when it is repeated")
	now := w.snap()
	want, _ := w.want()
	e := now.repo("a").entry("foo")
	sym.Assert(e != nil && sameSet(e.Deltas, want), "after a repetition the deltas listed are those that are possible")
	sym.Assert(sameRepo(now.repo("b"), before.repo("b")), "other repositories are left alone")
	o := w.olds[0]
	if has(want, o.delta) {
		pe := now.pool(o.delta)
		sym.Assert(pe != nil, "a listed delta is in the pool")
		file := w.repoFile("a", pe.Meta, o.delta)
		if o.known == nil {
			w.holds(o, file)
		} else {
			sym.Assert(content(file) == string(o.known.Data), "a known delta is used as it is")
		}
		sym.Assert(content(w.poolFile(pe.Meta, o.delta)) == content(file), "the delta in the pool is the one listed")
		sym.Assert(pe.RefCount >= 1 && (o.was != deltaPooled || pe.RefCount >= 2), "a listed delta is held")
	} else {
		sym.Assert(w.M.GetDeltaFailed(o.delta) == o.pointless, "an impossible delta is recorded")
	}
}

// HDeltaName: C26, deltas between different things have different names.
func HDeltaName() {
	top := 12
	if sym.Tier() > 0 {
		top = 120
	}
	dists, archs := []string{"1", "2", "11"}, []string{"x86_64", "i686"}
	mk := func(l string) (o, n *libeopkg.MetaPackage) {
		n = &libeopkg.MetaPackage{History: []libeopkg.Update{{Release: sym.Int(l+" to", 0, top)}}}
		o = &libeopkg.MetaPackage{History: []libeopkg.Update{{Release: sym.Int(l+" from", 0, top)}}}
		n.Name = "a" + sym.Chars(l+" name", "a-1", sym.Choose(l+" length", 3))
		n.DistributionRelease = dists[sym.Choose(l+" distribution", 3)]
		n.Architecture = archs[sym.Choose(l+" architecture", 2)]
		o.Name, o.DistributionRelease, o.Architecture = n.Name, n.DistributionRelease, n.Architecture
		return
	}
	o1, n1 := mk("one")
	o2, n2 := mk("other")
	same := sym.And(o1.GetRelease() == o2.GetRelease(), sym.And(n1.GetRelease() == n2.GetRelease(), sym.And(n1.Name == n2.Name,
		n1.DistributionRelease == n2.DistributionRelease && n1.Architecture == n2.Architecture)))
	equal := libeopkg.ComputeDeltaName(o1, n1) == libeopkg.ComputeDeltaName(o2, n2)
	sym.Assert(sym.Implies(equal, same), "deltas that differ in name, releases, distribution release or architecture have different names")
	sym.Assert(sym.Implies(same, equal), "the name of a delta is determined by these")
	if same {
		sym.Reach("same")
	} else {
		sym.Reach("different")
	}
}
