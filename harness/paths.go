package vharness

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HPaths", HPaths)
	add("HPathsTwo", HPathsTwo)
	add("HRepoDirs", HRepoDirs)
}

// component reports whether s names a single entry of a directory.
func component(s string) bool {
	return s != "" && s != "." && s != ".." && strings.IndexByte(s, '/') < 0
}

// usable reports whether s can be a source name: the first letters name the
// parent directory, so it cannot start with a dot.
func usable(s string) bool {
	return s != "" && s[0] != '.' && strings.IndexByte(s, '/') < 0
}

// directory is the documented place of a source below the pool and every repository.
func directory(source string) string {
	b := []byte(source)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	s := string(b)
	if len(s) > 3 && s[:3] == "lib" {
		return s[:4] + "/" + s
	}
	return s[:1] + "/" + s
}

func sourceName(label string) string {
	n := 4
	if sym.Tier() > 0 {
		n = 5
	}
	switch p := sym.Choose(label+" prefix", 3); p {
	case 0:
		return sym.Chars(label, "aL./", 1+sym.Choose(label+" length", n-1))
	case 1:
		return sym.Chars(label, "lL", 1) + sym.Chars(label, "iI", 1) + sym.Chars(label, "bB", 1) + sym.Chars(label, "aL.-", sym.Choose(label+" length", n-1))
	}
	return []string{"..", "../../x", "a/../../b", "/etc", "a/b", "./a", "nano", "libreoffice", "X11", ""}[sym.Choose(label+" name", 10)]
}

// HPaths: C29, where a package of any source name is stored.
func HPaths() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	must(w.M.CreateRepo("b"))
	src := sourceName("source")
	p := w.pkg("x-1.eopkg", "x", src, "1", 1)
	outside := func() (out []string) {
		for _, f := range files(w.Root) {
			if !strings.HasPrefix(f, "base/pool/") && !strings.HasPrefix(f, "base/repo/") && !strings.HasPrefix(f, "base/"+core.DatabasePathComponent) && !strings.HasPrefix(f, "in/") {
				out = append(out, f)
			}
		}
		return
	}
	before := outside()
	err := w.add("a", false, p)
	if err == nil {
		_, e := w.M.PullRepo("a", "b")
		must(e)
	}
	sym.Assert(sameSet(outside(), before), "nothing is stored outside the pool and the repositories")
	s := w.snap()
	if err != nil {
		sym.Assert(!usable(src), "a package with a usable source name is accepted")
		sym.Assert(len(s.Pool) == 0 && len(s.repo("a").Entries) == 0, "a refused package leaves nothing behind")
		sym.Assert(len(eopkgs(filepath.Join(w.Base, "pool"))) == 0, "a refused package leaves nothing behind")
		sym.Reach("refused")
		return
	}
	sym.Assert(usable(src), "a source name that is no single directory name is refused")
	rel := directory(src) + "/" + p.ID
	sym.Assert(content(filepath.Join(w.Base, "pool")+"/"+rel) == string(p.Data), "the pool keeps the package in the directory of its source")
	for _, r := range []string{"a", "b"} {
		sym.Assert(content(w.repoDir(r)+"/"+rel) == string(p.Data), "every repository keeps the package at the same relative path as the pool")
		sym.Assert(len(eopkgs(w.repoDir(r))) == 1, "a repository keeps a package once")
	}
	sym.Assert(len(eopkgs(filepath.Join(w.Base, "pool"))) == 1, "the pool keeps a package once")
	sym.Assert(s.pool(p.ID) != nil && s.pool(p.ID).Meta.PackageURI == rel, "the recorded location is that of the file")
	must(w.M.RemoveSource("a", src, 1))
	must(w.M.RemoveSource("b", src, 1))
	sym.Assert(len(files(filepath.Join(w.Base, "pool"))) == 0 && len(eopkgs(w.repoDir("a"))) == 0, "a removed package is removed where it was stored")
	sym.Reach("stored")
}

// HPathsTwo: C29, two package IDs never share a location.
func HPathsTwo() {
	mk := func(l string) (string, string) {
		n := sym.Chars(l+" source", "abLl", 1+sym.Choose(l+" source length", 3))
		if sym.Choose(l+" library", 2) == 1 {
			n = "lib" + n
		}
		id := sym.Chars(l+" file", "abLl", 1+sym.Choose(l+" file length", 2)) + ".eopkg"
		m := &libeopkg.MetaPackage{Source: libeopkg.Source{Name: n}}
		dir := m.GetPathComponent()
		sym.Assert(dir == directory(n), "the directory follows the documented scheme")
		again := &libeopkg.MetaPackage{Name: "other", PackageURI: "q", Source: libeopkg.Source{Name: n, Homepage: "h"}}
		sym.Assert(again.GetPathComponent() == dir, "the directory depends on the source name alone")
		return id, dir + "/" + id
	}
	a, la := mk("first")
	b, lb := mk("second")
	sym.Assert((a == b) || (la != lb), "two package IDs never share a location")
	sym.Assert(!strings.HasPrefix(la, lb+"/"), "no package is stored below another")
	sym.Reach("two")
}

// HRepoDirs: C29, a repository never occupies anything but its own directory.
func HRepoDirs() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	f := w.pkg("x-1.eopkg", "x", "x", "1", 1)
	must(w.add("a", false, f))
	must(os.WriteFile(filepath.Join(w.Base, "keep"), []byte("k"), 0644))
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	var id string
	if sym.Choose("kind", 2) == 0 {
		id = sym.Chars("id", "ax./", 1+sym.Choose("length", n))
	} else {
		id = []string{"", "a/x", "../x", "a/../b", "../../x", "../pool/y", "/b", "b/", "b"}[sym.Choose("name", 9)]
	}
	list := func() (out []string) {
		for _, p := range files(w.Root) {
			if !strings.HasPrefix(p, "base/"+core.DatabasePathComponent) {
				out = append(out, p)
			}
		}
		return
	}
	pre, before := w.snap(), list()
	var err error
	how := sym.Choose("how", 2)
	if how == 0 {
		err = w.M.CreateRepo(id)
	} else {
		err = w.M.CloneRepo("a", id, false)
	}
	if err != nil {
		sym.Assert(!component(id) || id == "a", "a repository with a usable new name can be created")
		sym.Assert(sameSet(list(), before), "a refused repository leaves nothing behind")
		expectSame(pre, w.snap(), "a refused repository")
		sym.Reach("refused")
		return
	}
	sym.Assert(component(id) && id != "a", "a name that is no single new directory name is refused")
	if how == 1 {
		sym.Assert(content(filepath.Join(w.Base, "repo")+"/"+id+"/"+directory("x")+"/"+f.ID) == string(f.Data), "a clone keeps its packages in its own directory")
	}
	st, e := os.Stat(filepath.Join(w.Base, "repo") + "/" + id)
	sym.Assert(e == nil && st.IsDir(), "a repository has its own directory")
	must(w.M.DeleteRepo(id))
	sym.Assert(sameSet(list(), before), "deleting a repository removes its own directory and nothing else")
	expectSame(pre, w.snap(), "creating and deleting another repository")
	sym.Reach("created")
}
