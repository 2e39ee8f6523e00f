package vharness

import (
	"archive/zip"
	"bytes"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

// Pkg is a package file the harness made.
type Pkg struct {
	ID, Name, Source, Version string
	Release                   int
	Path                      string
	Data                      []byte
	From, To                  string // deltas only
}

// World is one ferryd base directory.
type World struct {
	Root string
	Base string
	M    *core.Manager
	Pkgs []*Pkg
}

func must(err error) {
	if err != nil {
		if !sym.Symbolic() {
			println("setting up fails:", err.Error())
		}
		sym.Assert(false, "setting up fails")
	}
}

func newWorld() *World {
	w := &World{Root: sym.Root()}
	w.Base = filepath.Join(w.Root, "base")
	must(os.MkdirAll(w.Base, 0755))
	if otherDevice != "" {
		sym.Elsewhere(filepath.Join(w.Root, otherDevice))
	}
	must(os.MkdirAll(filepath.Join(w.Root, "in"), 0755))
	w.open()
	return w
}

// otherDevice is a directory of new worlds that is on another file system.
var otherDevice string

func (w *World) open() {
	m, err := core.NewManager(w.Base)
	must(err)
	w.M = m
}

func (w *World) close() {
	if w.M != nil {
		w.M.Close()
		w.M = nil
	}
}

func (w *World) restart() {
	w.close()
	w.open()
}

func metadataXML(name, source, version, release string) string {
	return "<PISI><Source><Name>" + source + "</Name><Packager><Name>P</Name><Email>p@x</Email></Packager></Source>" +
		"<Package><Name>" + name + "</Name><Summary xml:lang=\"en\">S</Summary><Description xml:lang=\"en\">D</Description>" +
		"<PartOf>c</PartOf><License>L</License><History><Update release=\"" + release + "\"><Date>2020-01-01</Date><Version>" + version + "</Version>" +
		"<Comment>c</Comment><Name>P</Name><Email>p@x</Email></Update></History><BuildHost>h</BuildHost><Distribution>Solus</Distribution>" +
		"<DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><InstalledSize>10</InstalledSize>" +
		"<PackageFormat>1.2</PackageFormat><Source><Name>" + source + "</Name><Packager><Name>P</Name><Email>p@x</Email></Packager></Source></Package></PISI>"
}

// zipFile writes an archive with the given members.
func zipFile(path string, members ...string) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for i := 0; i+1 < len(members); i += 2 {
		f, err := z.Create(members[i])
		must(err)
		_, err = f.Write([]byte(members[i+1]))
		must(err)
	}
	must(z.Close())
	must(os.WriteFile(path, b.Bytes(), 0644))
	return b.Bytes()
}

// pkg makes a package file outside the base directory.
func (w *World) pkg(id, name, source, version string, release int) *Pkg {
	p := &Pkg{ID: id, Name: name, Source: source, Version: version, Release: release, Path: filepath.Join(w.Root, "in", id)}
	p.Data = zipFile(p.Path, "metadata.xml", metadataXML(name, source, version, strconv.Itoa(release)), "id", id)
	w.Pkgs = append(w.Pkgs, p)
	return p
}

// delta makes a delta package file between two packages.
func (w *World) delta(id string, from, to *Pkg) *Pkg {
	p := w.pkg(id, to.Name, to.Source, to.Version, to.Release)
	p.From, p.To = from.ID, to.ID
	return p
}

func (w *World) byID(id string) *Pkg {
	for _, p := range w.Pkgs {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// fresh writes the package file again (an import takes ownership of the file).
func (w *World) refresh(p *Pkg) {
	os.Remove(p.Path)
	must(os.WriteFile(p.Path, p.Data, 0644))
}

func (w *World) add(repo string, strict bool, ps ...*Pkg) error {
	var paths []string
	for _, p := range ps {
		w.refresh(p)
		paths = append(paths, p.Path)
	}
	return w.M.AddPackages(repo, paths, strict)
}

func (w *World) addDelta(repo string, d *Pkg) error {
	w.refresh(d)
	return w.M.AddDelta(repo, d.Path, &core.DeltaInformation{FromID: d.From, ToID: d.To})
}

// RepoSnap is what one repository lists.
type RepoSnap struct {
	ID      string
	Entries []core.RepoEntry
}

// Snap is everything the database says.
type Snap struct {
	Repos []RepoSnap
	Pool  []core.PoolEntry
}

// snap stops the manager, reads the database through the public database API
// and starts a new manager.
func (w *World) snap() *Snap {
	w.close()
	s := w.read()
	w.open()
	return s
}

func (w *World) read() *Snap {
	s := &Snap{}
	db, err := libdb.Open(filepath.Join(w.Base, core.DatabasePathComponent))
	must(err)
	defer db.Close()
	pool := db.Bucket([]byte(core.DatabaseBucketPool))
	must(pool.ForEach(func(k, v []byte) error {
		e := core.PoolEntry{}
		if err := pool.Decode(v, &e); err != nil {
			return err
		}
		s.Pool = append(s.Pool, e)
		return nil
	}))
	root := db.Bucket([]byte(core.DatabaseBucketRepo))
	must(root.ForEach(func(k, v []byte) error {
		r := core.Repository{}
		if err := root.Decode(v, &r); err != nil {
			return err
		}
		s.Repos = append(s.Repos, RepoSnap{ID: r.ID})
		return nil
	}))
	for i := range s.Repos {
		r := &s.Repos[i]
		b := root.Bucket([]byte(r.ID)).Bucket([]byte(core.DatabaseBucketPackage))
		must(b.ForEach(func(k, v []byte) error {
			e := core.RepoEntry{}
			if err := b.Decode(v, &e); err != nil {
				return err
			}
			r.Entries = append(r.Entries, e)
			return nil
		}))
	}
	return s
}

func (s *Snap) repo(id string) *RepoSnap {
	for i := range s.Repos {
		if s.Repos[i].ID == id {
			return &s.Repos[i]
		}
	}
	return nil
}

func (r *RepoSnap) entry(name string) *core.RepoEntry {
	if r == nil {
		return nil
	}
	for i := range r.Entries {
		if r.Entries[i].Name == name {
			return &r.Entries[i]
		}
	}
	return nil
}

func (r *RepoSnap) available() []string {
	var out []string
	if r == nil {
		return nil
	}
	for _, e := range r.Entries {
		out = append(out, e.Available...)
	}
	sort.Strings(out)
	return out
}

func (r *RepoSnap) deltas() []string {
	var out []string
	if r == nil {
		return nil
	}
	for _, e := range r.Entries {
		out = append(out, e.Deltas...)
	}
	sort.Strings(out)
	return out
}

func (s *Snap) pool(id string) *core.PoolEntry {
	for i := range s.Pool {
		if s.Pool[i].Name == id {
			return &s.Pool[i]
		}
	}
	return nil
}

func has(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a = append([]string{}, a...)
	b = append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameEntry(a, b *core.RepoEntry) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Name == b.Name && a.Published == b.Published && sameSet(a.Available, b.Available) && sameSet(a.Deltas, b.Deltas)
}

func sameRepo(a, b *RepoSnap) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if len(a.Entries) != len(b.Entries) {
		return false
	}
	for i := range a.Entries {
		if !sameEntry(&a.Entries[i], b.entry(a.Entries[i].Name)) {
			return false
		}
	}
	return true
}

// repoFile is where a repository publishes a package.
func (w *World) repoFile(repo string, meta *libeopkg.MetaPackage, id string) string {
	return filepath.Join(w.Base, core.RepoPathComponent, repo, meta.GetPathComponent(), id)
}

func (w *World) poolFile(meta *libeopkg.MetaPackage, id string) string {
	return filepath.Join(w.Base, core.PoolPathComponent, meta.GetPathComponent(), id)
}

// files lists all regular files below dir, relative to it.
func files(dir string) []string {
	var out []string
	var rec func(d, rel string)
	rec = func(d, rel string) {
		es, err := os.ReadDir(d)
		if err != nil {
			return
		}
		for _, e := range es {
			if e.IsDir() {
				rec(filepath.Join(d, e.Name()), filepath.Join(rel, e.Name()))
			} else {
				out = append(out, filepath.Join(rel, e.Name()))
			}
		}
	}
	rec(dir, "")
	sort.Strings(out)
	return out
}

// eopkgs lists the package files below dir by base name.
func eopkgs(dir string) []string {
	var out []string
	for _, f := range files(dir) {
		if filepath.Ext(f) == ".eopkg" {
			out = append(out, filepath.Base(f))
		}
	}
	return out
}

func exists(p string) bool {
	_, err := os.Lstat(p)
	return err == nil
}

func content(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return "(missing)"
	}
	return string(b)
}

// checkRefs: reference counts equal the number of holders; records and files
// exist exactly while it is positive.
func (w *World) checkRefs(s *Snap) {
	want := w.checkCounts(s)
	sym.Assert(sameSet(want, eopkgs(filepath.Join(w.Base, core.PoolPathComponent))), "pool files and pool records correspond")
}

// checkCounts is checkRefs without the files; it returns the names of those
// there should be.
func (w *World) checkCounts(s *Snap) []string {
	for _, p := range w.Pkgs {
		n := 0
		for _, r := range s.Repos {
			for _, e := range r.Entries {
				if has(e.Available, p.ID) || has(e.Deltas, p.ID) {
					n++
				}
			}
		}
		e := s.pool(p.ID)
		if n == 0 {
			sym.Assert(e == nil, "a package no repository lists has no pool record")
		} else {
			sym.Assert(e != nil, "a listed package has a pool record")
			sym.Assert(e.RefCount == uint64(n), "the reference count equals the number of repositories listing the package")
		}
	}
	var want []string
	for _, e := range s.Pool {
		want = append(want, e.Name)
		n := 0
		for _, r := range s.Repos {
			for _, l := range r.Entries {
				if has(l.Available, e.Name) || has(l.Deltas, e.Name) {
					n++
				}
			}
		}
		sym.Assert(n > 0 && e.RefCount == uint64(n), "every pool record counts the repositories listing the package")
	}
	return want
}

// checkFiles: everything listed is on disk with its original bytes and held by
// at least as many references as there are repositories listing it.
func (w *World) checkFiles(s *Snap) {
	for _, r := range s.Repos {
		for _, e := range r.Entries {
			for _, id := range append(append([]string{}, e.Available...), e.Deltas...) {
				p := w.byID(id)
				sym.Assert(p != nil, "only imported packages are listed")
				pe := s.pool(id)
				sym.Assert(pe != nil, "a listed package is backed by a pool record")
				n := 0
				for _, q := range s.Repos {
					if l := q.entry(e.Name); l != nil && (has(l.Available, id) || has(l.Deltas, id)) {
						n++
					}
				}
				sym.Assert(pe.RefCount >= uint64(n), "a listed package is held by every repository listing it")
				sym.Assert(content(w.poolFile(pe.Meta, id)) == string(p.Data), "the pool file of a listed package holds the imported bytes")
				sym.Assert(content(w.repoFile(r.ID, pe.Meta, id)) == string(p.Data), "the repository file of a listed package holds the imported bytes")
			}
		}
	}
}

// checkTips: the published version is an available one of the highest release.
func (w *World) checkTips(s *Snap) {
	for _, r := range s.Repos {
		for _, e := range r.Entries {
			sym.Assert(len(e.Available) > 0, "a listed name has at least one available version")
			sym.Assert(has(e.Available, e.Published), "the published version is available")
			pub := w.byID(e.Published)
			for _, id := range e.Available {
				p := w.byID(id)
				sym.Assert(p.Name == e.Name, "versions are listed under their own name")
				sym.Assert(p.Release <= pub.Release, "no available version is newer than the published one")
			}
		}
	}
}

// large is text larger than common buffers, with one symbolic byte.
func large(l string) string {
	n := []int{511, 4095, 4096, 8192, 32768, 65536, 1 << 20}[sym.Choose(l+" size", 7)]
	return strings.Repeat("l", n) + sym.Chars(l+" byte", "lm", 1) + strings.Repeat("x", sym.Choose(l+" rest", 2)*5)
}
