package vharness

import (
	"archive/zip"
	"bytes"
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HLargePayload", HLargePayload)
	add("HLargeIndex", HLargeIndex)
	add("HLargeAssets", HLargeAssets)
	add("HLargePackage", HLargePackage)
}

// HLargePayload: C23, files of many sizes that differ in one byte.
func HLargePayload() {
	dir := filepath.Join(sym.Root(), "incoming")
	must(os.MkdirAll(dir, 0755))
	data := large("file")
	other := data
	if sym.Choose("other", 2) == 1 {
		other = strings.Replace(data, "m", "l", 1)
	}
	must(os.WriteFile(filepath.Join(dir, "a.eopkg"), []byte(data), 0644))
	path := filepath.Join(dir, "m.tram")
	must(os.WriteFile(path, []byte(manifestText("1.0", "unstable", "a.eopkg", sha256hex([]byte(other)))), 0644))
	m, err := core.NewTransitManifest(path)
	must(err)
	err = m.ValidatePayload()
	sym.Assert((err == nil) == (data == other), "a payload is valid exactly if it has the listed checksum")
	if err == nil {
		sym.Reach("valid")
	} else {
		sym.Reach("invalid")
	}
}

// HLargeIndex: C12, the checksums of a large index.
func HLargeIndex() {
	s := &scene{World: newWorld()}
	must(s.M.CreateRepo("a"))
	s.f1 = s.pkg("foo-1.eopkg", "foo", "foo", "1", 1)
	s.fill("a", s.f1)
	sym.Markup()
	text := large("text")
	must(os.WriteFile(filepath.Join(s.assetDir("a"), "groups.xml"), []byte("<PISI><Groups><Group><Name>g</Name><LocalName>"+text+"</LocalName><Icon>i</Icon></Group></Groups></PISI>"), 0644))
	sym.Assert(s.M.Index("a") == nil, "indexing succeeds")
	s.sumsMatch("a")
	s.decompressed("a")
	s.checkIndex(s.snap().repo("a"), nil)
	sym.Reach("indexed")
}

// HLargeAssets: C05, C06, large assets are taken over as they are.
func HLargeAssets() {
	s := &scene{World: newWorld()}
	must(s.M.CreateRepo("a"))
	if sym.Choose("elsewhere", 2) == 1 {
		sym.Elsewhere(filepath.Join(s.Base, "repo"))
	}
	text := "<PISI><Groups><Group><Name>g</Name><LocalName>" + large("text") + "</LocalName><Icon>i</Icon></Group></Groups></PISI>"
	must(os.WriteFile(filepath.Join(s.assetDir("a"), "groups.xml"), []byte(text), 0644))
	if sym.Choose("operation", 2) == 0 {
		must(s.M.CloneRepo("a", "b", true))
	} else {
		must(s.M.CreateRepo("b"))
		must(os.WriteFile(filepath.Join(s.assetDir("b"), "groups.xml"), []byte("<PISI>"+strings.Repeat("o", 100000)), 0644))
		_, err := s.M.PullRepo("a", "b")
		must(err)
	}
	sym.Assert(content(filepath.Join(s.assetDir("b"), "groups.xml")) == text, "assets are taken over as they are")
	sym.Assert(content(filepath.Join(s.assetDir("a"), "groups.xml")) == text, "the assets of the source stay as they are")
	sym.Reach("done")
}

// HLargePackage: C02, C12, large packages are stored and published as they are.
func HLargePackage() {
	s := &scene{World: newWorld()}
	must(s.M.CreateRepo("a"))
	if sym.Choose("elsewhere", 2) == 1 {
		sym.Elsewhere(filepath.Join(s.Root, "in"))
	}
	p := s.pkg("foo-1.eopkg", "foo", "foo", "1", 1)
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for _, m := range [][]string{{"metadata.xml", metadataXML("foo", "foo", "1", "1")}, {"payload", large("payload")}} {
		f, err := z.CreateHeader(&zip.FileHeader{Name: m[0], Method: zip.Store})
		must(err)
		_, err = f.Write([]byte(m[1]))
		must(err)
	}
	must(z.Close())
	p.Data = b.Bytes()
	s.refresh(p)
	must(s.M.AddPackages("a", []string{p.Path}, sym.Choose("take over", 2) == 1))
	must(s.M.Index("a"))
	n := s.snap()
	s.checkFiles(n)
	s.checkIndex(n.repo("a"), nil)
	sym.Reach("stored")
}
