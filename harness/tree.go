package vharness

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/ferryctl/cmd"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() { add("HTree", HTree) }

// HTree: C32, what the import command selects.
func HTree() {
	root := filepath.Join(sym.Root(), "tree")
	must(os.MkdirAll(root, 0755))
	var want []string
	bad := false
	n := 0
	name := func() string {
		n++
		pre := string(rune('a' + n))
		switch sym.Choose("name", 7) {
		case 0:
			return pre + sym.Chars("tail", "x4.", 1) + "-1-x86_6" + sym.Chars("digit", "4x", 1) + ".eopkg"
		case 1:
			return pre + "-1-2-1-x86_64.delta.eopkg"
		case 2:
			return pre + "x86_64.eopkg"
		case 3:
			return pre + "x86_64.eopkg" + sym.Chars("suffix", "g~", 1)
		case 5: // names that look like something else
			return []string{pre + "-delta-1-1-1-x86_64.eopkg", pre + ".delta-1-x86_64.eopkg", "." + pre + "-x86_64.eopkg", pre + " 1 x86_64.eopkg", pre + "-i686-x86_64.eopkg", pre + ".eopkg-x86_64.eopkg", "x86_64.eopkg"}[sym.Choose("odd", 7)]
		case 4:
			return pre + []string{"-i686.eopkg", ".txt", "eopkg", "X86_64.EOPKG", "x86_64_eopkg", "x86_64.eopk"}[sym.Choose("other", 6)]
		}
		return ""
	}
	file := func(dir string) {
		f := name()
		if f == "" {
			return
		}
		p := dir + "/" + f
		must(os.WriteFile(p, []byte("x"), 0644))
		if strings.HasSuffix(f, "x86_64.eopkg") && !bad {
			want = append(want, p)
		}
	}
	file(root)
	dirs := sym.Choose("directories", 6)
	for i := 0; i < dirs; i++ {
		d := filepath.Join(root, []string{"b", "dir-x86_64.eopkg", "b/c", "b/x.delta", ".hidden"}[i])
		must(os.MkdirAll(d, 0755))
		if i == 1 {
			file(d)
		}
		if i != 1 {
			must(os.WriteFile(d+"/deep-1-x86_64.eopkg", []byte("x"), 0644))
			want = append(want, d+"/deep-1-x86_64.eopkg")
		}
	}
	switch sym.Choose("unreadable", 4) {
	case 1:
		must(os.Symlink("/nonexistent", filepath.Join(root, "zz")))
		bad = true
	case 2:
		if dirs > 0 {
			must(os.Symlink("/nonexistent", filepath.Join(root, "b", "aa-x86_64.eopkg")))
			bad = true
		}
	case 3:
		if dirs > 0 {
			must(os.Symlink("/nonexistent", filepath.Join(root, "b", "aa")))
			must(os.Symlink("/nonexistent", filepath.Join(root, "0")))
			bad = true
		}
	}
	got, err := cmd.GetEopkgs(root)
	if bad {
		sym.Assert(err != nil, "a path that cannot be read is reported")
		sym.Reach("unreadable")
		return
	}
	sym.Assert(err == nil, "a readable tree is read")
	sym.Assert(sameSet(got, want), "exactly the package files are selected, each once")
	if len(want) > 0 {
		one, err := cmd.GetEopkgs(want[0])
		sym.Assert(err == nil && sameSet(one, want[:1]), "a single package file is selected")
	}
	sym.Reach("selected")
}
