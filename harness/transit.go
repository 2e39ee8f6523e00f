package vharness

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HTransit", HTransit)
	add("HTransitFault", HTransitFault)
	add("HTransitCrash", HTransitCrash)
	add("HManyTransit", HManyTransit)
}

// upload is a manifest with its files in the incoming directory.
type upload struct {
	*scene
	dir      string
	manifest string
	text     string
	pkgs     []*Pkg
	disk     map[string]string // everything in the incoming directory
}

// newUpload puts packages and a manifest for a target in the incoming directory.
func newUpload(s *scene, target string, ps ...*Pkg) *upload {
	u := &upload{scene: s, dir: s.M.IncomingPath, pkgs: ps, disk: map[string]string{}}
	var list []string
	for _, p := range ps {
		u.disk[p.ID] = string(p.Data)
		list = append(list, p.ID, sha256hex(p.Data))
	}
	u.manifest = filepath.Join(u.dir, "up.tram")
	u.text = manifestText("1.0", target, list...)
	u.disk["up.tram"] = u.text
	u.disk["bystander-1.eopkg"] = "x"
	u.disk["other.tram"] = "y"
	return u
}

func (u *upload) write() {
	must(os.MkdirAll(u.dir, 0755))
	for _, n := range sortedNames(u.disk) {
		must(os.WriteFile(filepath.Join(u.dir, n), []byte(u.disk[n]), 0644))
	}
}

func sortedNames(m map[string]string) []string {
	var out []string
	for n := range m {
		i := 0
		for i < len(out) && out[i] < n {
			i++
		}
		out = append(out[:i], append([]string{n}, out[i:]...)...)
	}
	return out
}

func (u *upload) run() error {
	h, err := jobs.NewJobHandler(jobs.NewTransitJob(u.manifest))
	must(err)
	return h.Execute(nil, u.M)
}

// intact: everything that was uploaded is still there.
func (u *upload) intact(what string) {
	for _, n := range sortedNames(u.disk) {
		sym.Assert(content(filepath.Join(u.dir, n)) == u.disk[n], what)
	}
}

// consumed: the upload is gone, and nothing else is.
func (u *upload) consumed() {
	sym.Assert(!exists(u.manifest), "the manifest of an imported upload is deleted")
	for _, p := range u.pkgs {
		sym.Assert(!exists(filepath.Join(u.dir, p.ID)), "the files of an imported upload are deleted")
	}
	sym.Assert(content(filepath.Join(u.dir, "bystander-1.eopkg")) == "x" && content(filepath.Join(u.dir, "other.tram")) == "y", "files of other uploads stay")
}

func (s *scene) uploads() [][]*Pkg {
	return [][]*Pkg{set(s.f2), set(s.f1, s.h), set(s.h, s.f3), set(s.f3, s.g, s.h), set(s.f2, s.f3)}
}

// HTransit: C24, an upload with a symbolic manifest (version, target, names,
// checksums right or wrong, files missing or surplus) is processed; what is
// imported, refused and deleted is compared.
func HTransit() {
	s := newScene(false)
	s.state("a", set(), set(s.f1), set(s.f2, s.f1, s.g, s.d), set(s.f3, s.h))
	s.state("b", set(), set(s.f1, s.f2, s.d))
	l := s.uploads()
	ps := l[sym.Choose("upload", len(l))]
	target := "a"
	wrong := sym.Choose("wrong", 9)
	if wrong == 1 {
		target = []string{"nope", "A", "a/b"}[sym.Choose("target", 3)]
	}
	u := newUpload(s, target, ps...)
	last := ps[len(ps)-1].ID
	switch wrong {
	case 2:
		u.disk[last] = u.disk[last] + "x"
	case 3:
		delete(u.disk, last)
	case 4:
		u.disk["up.tram"] = manifestText("1.1", "a", ps[0].ID, sha256hex(ps[0].Data))
	case 5:
		u.disk["up.tram"] = manifestText("1.0", "", ps[0].ID, sha256hex(ps[0].Data))
	case 6:
		u.disk["up.tram"] = manifestText("1.0", "a", last, sha256hex(ps[0].Data)+"0")
	case 7:
		// the file of the pool instead of an uploaded one
		e := s.snap().pool(s.f1.ID)
		if e == nil {
			return
		}
		u.disk["up.tram"] = manifestText("1.0", "a", "../pool/"+e.Meta.PackageURI, sha256hex(s.f1.Data))
		u.pkgs = nil
	case 8:
		// not a package, but with the right checksum
		u.disk[last] = "damaged"
		var list []string
		for _, p := range ps {
			list = append(list, p.ID, sha256hex([]byte(u.disk[p.ID])))
		}
		u.disk["up.tram"] = manifestText("1.0", "a", list...)
	}
	u.write()
	pre := s.snap()
	err := u.run()
	post := s.snap()
	want := listingOf(pre.repo("a"))
	refused := wrong != 0
	if wrong == 0 || wrong == 8 {
		for _, p := range ps {
			e := want.get(p.Name)
			if (e != nil && p.Release <= s.byID(e.pub).Release) || (wrong == 8 && p.ID == last) {
				refused = true
				break
			}
			want.insert(s.World, p)
		}
	}
	expect(post.repo("a"), want, "upload")
	others(pre, post, "a", "upload")
	s.expectFiles(post.repo("a"), "upload")
	s.checkFiles(post)
	if refused {
		sym.Assert(err != nil, "an upload that is not verified or not newer is reported as failed")
		u.intact("after a failed upload everything is still there")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a verified upload of newer packages is imported")
	u.consumed()
	s.sumsMatch("a")
	s.checkIndex(post.repo("a"), nil)
	sym.Reach("imported")
}

func smallUpload() *upload {
	s := &scene{World: newWorld()}
	must(s.M.CreateRepo("a"))
	s.f1 = s.pkg("foo-1.eopkg", "foo", "foo", "1", sym.Int("r1", 1, 9))
	s.f2 = s.pkg("foo-2.eopkg", "foo", "foo", "2", sym.Int("r2", 1, 9))
	s.h = s.pkg("bar-1.eopkg", "bar", "bar", "1", 3)
	if sym.Choose("listed", 2) == 1 {
		s.fill("a", s.f1)
	}
	u := newUpload(s, "a", [][]*Pkg{set(s.f2), set(s.h, s.f2)}[sym.Choose("upload", 2)]...)
	u.write()
	return u
}

// HTransitFault: C24, one operation of the processing fails.
func HTransitFault() {
	u := smallUpload()
	pre := u.snap()
	var err error
	hit := sym.Fault(func() { err = u.run() })
	left := map[string]bool{}
	gone := 0
	for _, n := range sortedNames(u.disk) {
		left[n] = exists(filepath.Join(u.dir, n))
		if !left[n] {
			gone++
		}
	}
	post := u.snap()
	others(pre, post, "a", "upload")
	u.checkFiles(post)
	if err != nil {
		u.intact("after a failed upload everything is still there")
		if hit {
			sym.Reach("fault")
		} else {
			sym.Reach("refused")
		}
		return
	}
	for _, p := range u.pkgs {
		sym.Assert(has(post.repo("a").available(), p.ID), "a successful upload is listed")
	}
	sym.Assert(gone >= len(u.pkgs), "a successful upload is deleted, except what cannot be")
	sym.Assert(left["bystander-1.eopkg"] && left["other.tram"], "files of other uploads stay")
	sym.Reach("imported")
}

// HTransitCrash: C24, the process dies while an upload is processed.
func HTransitCrash() {
	u := smallUpload()
	sym.Assume(u.f2.Release > u.f1.Release)
	if !sym.Crash(func() { must(u.run()) }) {
		u.consumed()
		sym.Reach("done")
		return
	}
	u.M = nil
	u.open()
	post := u.snap()
	u.checkFiles(post)
	gone := 0
	for _, n := range sortedNames(u.disk) {
		if !exists(filepath.Join(u.dir, n)) {
			gone++
		}
	}
	for _, p := range u.pkgs {
		listed := has(post.repo("a").available(), p.ID)
		if gone > 0 {
			sym.Assert(listed, "an upload is deleted only when all of it is imported")
			sym.Reach("deleting")
		}
		if !listed {
			sym.Reach("importing")
		}
	}
	if gone > 0 {
		x := readIndex(filepath.Join(u.repoDir("a"), "eopkg-index.xml"))
		n := 0
		for _, p := range u.pkgs {
			for i := range x.Package {
				if x.Package[i].Name == p.Name && x.Package[i].PackageURI == u.uri(p) {
					n++
				}
			}
		}
		sym.Assert(n == len(u.pkgs), "an upload is deleted only when all of it is published")
		u.sumsMatch("a")
	} else {
		u.intact("until all of it is imported an upload stays complete")
	}
}

// HManyTransit: C24, an upload of a lot of packages of which one may be damaged.
func HManyTransit() {
	s := &scene{World: newWorld()}
	must(s.M.CreateRepo("a"))
	var ps []*Pkg
	k := []int{11, 17, 33, 65}[sym.Choose("number", 3+sym.Tier())]
	for i := 0; i < k; i++ {
		n := "p" + string(rune('a'+i%26)) + strings.Repeat("x", i/26)
		ps = append(ps, s.pkg(n+"-1.eopkg", n, "many", "1", 1))
	}
	u := newUpload(s, "a", ps...)
	bad := sym.Choose("damaged", k+1)
	if bad < k {
		u.disk[ps[bad].ID] += "x"
	}
	u.write()
	err := u.run()
	post := s.snap()
	s.checkRefs(post)
	s.checkFiles(post)
	if bad < k {
		sym.Assert(err != nil, "an upload that is not verified is reported as failed")
		sym.Assert(len(post.Pool) == 0, "nothing of an upload that is not verified is imported")
		u.intact("after a failed upload everything is still there")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a verified upload of newer packages is imported")
	sym.Assert(sameSet(post.repo("a").available(), ids(ps)), "everything in the upload is imported")
	u.consumed()
	s.sumsMatch("a")
	s.checkIndex(post.repo("a"), nil)
	sym.Reach("imported")
}
