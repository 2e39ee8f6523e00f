package vharness

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HManifest", HManifest)
	add("HPayload", HPayload)
}

// trim removes surrounding blanks.
func trim(s string) string {
	for s != "" && s[0] == ' ' {
		s = s[1:]
	}
	for s != "" && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

func manifestText(version, target string, files ...string) string {
	t := "[manifest]\nversion = \"" + version + "\"\ntarget = \"" + target + "\"\n"
	for i := 0; i+1 < len(files); i += 2 {
		t += "\n[[file]]\npath = \"" + files[i] + "\"\nsha256 = \"" + files[i+1] + "\"\n"
	}
	return t
}

// HManifest: C23, which manifests load.
func HManifest() {
	dir := filepath.Join(sym.Root(), "incoming")
	must(os.MkdirAll(dir, 0755))
	path := filepath.Join(dir, "m.tram")
	version, target := "1.0", "unstable"
	list := []string{"a-1.eopkg", "00"}
	want := true
	text := ""
	switch sym.Choose("part", 6) {
	case 0:
		version = sym.Chars("version", "1.0 ", 1+sym.Choose("length", 5))
		want = trim(version) == "1.0"
	case 1:
		target = sym.Chars("target", " a", sym.Choose("length", 4))
		want = trim(target) != ""
	case 2:
		switch sym.Choose("files", 3) {
		case 0:
			list = nil
		case 1:
			list = []string{"a-1.eopkg", "00", "b-1.eopkg", "11"}
		case 2:
			list = []string{"a-1.eopkg", "00", "a-1.eopkg", "00"}
		}
		want = len(list) > 0
	case 3:
		n := sym.Choose("which", 2) * 2
		list = []string{"a-1.eopkg", "00", "b-1.eopkg", "11"}
		switch sym.Choose("name", 4) {
		case 0:
			list[n] = sym.Chars("file", " a.", sym.Choose("length", 4)) + "eopkg" + sym.Chars("after", " g", sym.Choose("tail", 3))
		case 1:
			list[n] = sym.Chars("file", " a", 1+sym.Choose("length", 2)) + ".eop" + sym.Chars("k", "kK", 1) + sym.Chars("g", "gG", 1)
		case 2:
			list[n] = sym.Chars("file", " a", sym.Choose("length", 4))
		case 3:
			list[n+1] = sym.Chars("sum", " 0", sym.Choose("length", 4))
		}
		for i := range list {
			list[i] = trim(list[i])
			want = want && list[i] != "" && (i%2 == 1 || strings.HasSuffix(list[i], ".eopkg"))
		}
	case 4:
		// something is missing, doubled or of another type
		want = false
		full := manifestText(version, target, list...)
		switch sym.Choose("form", 12) {
		case 0:
			text = strings.Replace(full, "[manifest]\n", "", 1)
		case 1:
			text = strings.Replace(full, "version = \"1.0\"\n", "", 1)
		case 2:
			text = strings.Replace(full, "target = \"unstable\"\n", "", 1)
		case 3:
			text = strings.Replace(full, "path = \"a-1.eopkg\"\n", "", 1)
		case 4:
			text = strings.Replace(full, "sha256 = \"00\"\n", "", 1)
		case 5:
			text = strings.Replace(full, "\"1.0\"", "1.0", 1)
		case 6:
			text = strings.Replace(full, "[[file]]", "[file]", 1)
		case 7:
			text = strings.Replace(full, "\"00\"", "0", 1)
		case 8:
			text = full[:len(full)-sym.Choose("cut", 30)-2]
		case 9:
			text = full + "version"
		case 10:
			want = true
			text = strings.Replace(full, "[[file]]", "extra = \"x\"\n[other]\ny = 1\n[[file]]\nmore = 2", 1)
		case 11:
			text = "manifest"
		}
	case 5:
		// a name that leads out of the upload directory
		want = false
		list[0] = []string{"../a-1.eopkg", "x/../../a-1.eopkg", "../pool/a/a/a-1.eopkg", " ../a-1.eopkg", "../../a.eopkg"}[sym.Choose("escape", 5)]
	}
	if text == "" {
		text = manifestText(version, target, list...)
	}
	must(os.WriteFile(path, []byte(text), 0644))
	m, err := core.NewTransitManifest(path)
	if !want {
		sym.Assert(err != nil, "an incomplete or invalid manifest is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a complete manifest loads")
	sym.Assert(m.ID() == "m.tram" && m.Manifest.Version == "1.0" && m.Manifest.Target == trim(target), "the manifest carries the header without blanks")
	ps := m.GetPaths()
	sym.Assert(len(ps) == len(list)/2 && len(m.File) == len(list)/2, "the manifest carries every file")
	for i, p := range ps {
		sym.Assert(p == dir+"/"+trim(list[2*i]), "a file is looked for beside the manifest")
		sym.Assert(m.File[i].Sha256 == trim(list[2*i+1]), "the manifest carries every checksum")
	}
	_, err = core.NewTransitManifest(filepath.Join(dir, "nothing.tram"))
	sym.Assert(err != nil, "a manifest that does not exist is refused")
	sym.Reach("loaded")
}

// HPayload: C23, validation compares every file with its checksum.
func HPayload() {
	dir := filepath.Join(sym.Root(), "incoming")
	must(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
	path := filepath.Join(dir, "m.tram")
	n := 1 + sym.Choose("files", 3)
	bad := sym.Choose("which", n)
	ok := true
	var list []string
	for i := 0; i < n; i++ {
		name := []string{"a.eopkg", "b.eopkg", "c.eopkg"}[i]
		data := "data of " + name
		sum := sha256hex([]byte(data))
		p := filepath.Join(dir, name)
		if i == bad {
			switch sym.Choose("fault", 8) {
			case 0:
			case 1:
				data, ok = "data of b.eopkh", false
			case 2:
				data, ok = "", false
			case 3:
				data, sum = "", sha256hex(nil)
			case 4:
				k := sym.Choose("position", 64)
				if sym.Tier() == 0 {
					sym.Assume(k == 0 || k == 31 || k == 63)
				}
				d := sym.Chars("digit", "0123456789abcdefABCDEF", 1)
				ok = d == sum[k:k+1]
				sum = sum[:k] + d + sum[k+1:]
			case 5:
				k := sym.Choose("length", 64)
				if sym.Tier() == 0 {
					sym.Assume(k == 1 || k == 32 || k == 63)
				}
				sum, ok = sum[:k], false
				if k == 0 {
					return
				}
			case 6:
				sum, ok = sum+"0", false
			case 7:
				p, ok = filepath.Join(dir, "elsewhere.eopkg"), false
			}
		}
		must(os.WriteFile(p, []byte(data), 0644))
		list = append(list, name, sum)
	}
	switch sym.Choose("twice", 4) {
	case 1: // the first file again
		list = append(list, list[:2]...)
	case 2: // again, with any other last digit
		d := sym.Chars("other digit", "0123456789abcdef", 1)
		if len(list[1]) == 64 && ok {
			ok = d == list[1][63:]
			list = append(list, list[0], list[1][:63]+d)
		}
	case 3: // again, under another spelling of its path, for another content
		list = append(list, "./"+list[0], sha256hex([]byte("other data")))
		ok = false
	}
	must(os.WriteFile(path, []byte(manifestText("1.0", "unstable", list...)), 0644))
	m, err := core.NewTransitManifest(path)
	sym.Assert(err == nil, "a complete manifest loads")
	err = m.ValidatePayload()
	if ok {
		sym.Assert(err == nil, "a complete payload is valid")
		sym.Reach("valid")
	} else {
		sym.Assert(err != nil, "a payload with a missing or different file is not valid")
		sym.Reach("invalid")
	}
}
