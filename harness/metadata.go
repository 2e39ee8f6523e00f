package vharness

import (
	"encoding/xml"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HMetadata", HMetadata)
	add("HAssetText", HAssetText)
	add("HCharacters", HCharacters)
}

// The harness's own idea of the index format: every value as text.

type mText struct {
	Value string `xml:",chardata"`
	Lang  string `xml:"lang,attr"`
}

type mDep struct {
	Name        string `xml:",chardata"`
	ReleaseFrom string `xml:"releaseFrom,attr"`
	ReleaseTo   string `xml:"releaseTo,attr"`
	Release     string `xml:"release,attr"`
	VersionFrom string `xml:"versionFrom,attr"`
	VersionTo   string `xml:"versionTo,attr"`
	Version     string `xml:"version,attr"`
}

type mAction struct {
	Value   string `xml:",chardata"`
	Package string `xml:"package,attr"`
}

type mUpdate struct {
	Release  string `xml:"release,attr"`
	Type     string `xml:"type,attr"`
	Date     string
	Version  string
	Comment  string
	Name     string
	Email    string
	Requires []mAction `xml:"Requires>Action"`
}

type mComar struct {
	Value  string `xml:",chardata"`
	Script string `xml:"script,attr"`
}

type mPackage struct {
	Name        string
	Summary     []mText
	Description []mText
	IsA         string
	PartOf      string
	License     []string
	Deps        []mDep    `xml:"RuntimeDependencies>Dependency"`
	Conflicts   []string  `xml:"Conflicts>Package"`
	Replaces    []string  `xml:"Replaces>Package"`
	COMAR       []mComar  `xml:"Provides>COMAR"`
	PkgConfig   []string  `xml:"Provides>PkgConfig"`
	PkgConfig32 []string  `xml:"Provides>PkgConfig32"`
	History     []mUpdate `xml:"History>Update"`

	BuildHost           string
	Distribution        string
	DistributionRelease string
	Architecture        string
	InstalledSize       string
	PackageSize         int64
	PackageHash         string
	PackageURI          string
	PackageFormat       string

	SourceName string `xml:"Source>Name"`
	Homepage   string `xml:"Source>Homepage"`
	Packager   string `xml:"Source>Packager>Name"`
	Email      string `xml:"Source>Packager>Email"`
}

type mComponent struct {
	Name        string
	LocalName   []mText
	Summary     []mText
	Description []mText
	Group       string
	Maintainer  string `xml:"Maintainer>Name"`
	Email       string `xml:"Maintainer>Email"`
}

type mGroup struct {
	Name      string
	LocalName []mText
	Icon      string
}

type mDist struct {
	SourceName  string
	Description []mText
	Version     string
	Type        string
	BinaryName  string
	Obsoletes   []string `xml:"Obsoletes>Package"`
}

type mIndex struct {
	Distribution []mDist
	Package      []mPackage
	Component    []mComponent
	Group        []mGroup
}

func readFull(path string) *mIndex {
	b, err := os.ReadFile(path)
	sym.Assert(err == nil, "an index is published")
	x := &mIndex{}
	sym.Assert(xml.Unmarshal(b, x) == nil, "the published index is well formed")
	return x
}

func el(name, body string, attrs ...string) string {
	t := "<" + name
	for i := 0; i+1 < len(attrs); i += 2 {
		if attrs[i+1] != "" {
			t += " " + attrs[i] + "=\"" + escaped(attrs[i+1]) + "\""
		}
	}
	return t + ">" + body + "</" + name + ">"
}

// escaped is a text as it is written in markup.
func escaped(s string) string {
	t := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '&':
			t += "&amp;"
		case '<':
			t += "&lt;"
		case '>':
			t += "&gt;"
		case '"':
			t += "&quot;"
		default:
			t += s[i : i+1]
		}
	}
	return t
}

// txt is an element with text only.
func txt(name, body string, attrs ...string) string { return el(name, escaped(body), attrs...) }

func opt(name, body string) string {
	if body == "" {
		return ""
	}
	return el(name, body)
}

func optTxt(name, body string) string { return opt(name, escaped(body)) }

func texts(name string, l []mText) string {
	t := ""
	for _, v := range l {
		t += txt(name, v.Value, "xml:lang", v.Lang)
	}
	return t
}

func els(outer, name string, l []string) string {
	t := ""
	for _, v := range l {
		t += txt(name, v)
	}
	if outer == "" || t == "" {
		return t
	}
	return el(outer, t)
}

// render writes the metadata.xml of a package.
func (m *mPackage) render() string {
	src := el("Source", txt("Name", m.SourceName)+optTxt("Homepage", m.Homepage)+el("Packager", txt("Name", m.Packager)+txt("Email", m.Email)))
	t := txt("Name", m.Name) + texts("Summary", m.Summary) + texts("Description", m.Description) + optTxt("IsA", m.IsA) + optTxt("PartOf", m.PartOf) + els("", "License", m.License)
	d := ""
	for _, v := range m.Deps {
		d += txt("Dependency", v.Name, "releaseFrom", v.ReleaseFrom, "releaseTo", v.ReleaseTo, "release", v.Release, "versionFrom", v.VersionFrom, "versionTo", v.VersionTo, "version", v.Version)
	}
	t += opt("RuntimeDependencies", d) + els("Conflicts", "Package", m.Conflicts) + els("Replaces", "Package", m.Replaces)
	d = ""
	for _, v := range m.COMAR {
		d += txt("COMAR", v.Value, "script", v.Script)
	}
	t += opt("Provides", d+els("", "PkgConfig", m.PkgConfig)+els("", "PkgConfig32", m.PkgConfig32))
	d = ""
	for _, v := range m.History {
		q := ""
		for _, a := range v.Requires {
			q += txt("Action", a.Value, "package", a.Package)
		}
		d += el("Update", txt("Date", v.Date)+txt("Version", v.Version)+txt("Comment", v.Comment)+txt("Name", v.Name)+txt("Email", v.Email)+opt("Requires", q), "release", v.Release, "type", v.Type)
	}
	t += el("History", d) + txt("BuildHost", m.BuildHost) + txt("Distribution", m.Distribution) + txt("DistributionRelease", m.DistributionRelease) +
		txt("Architecture", m.Architecture) + txt("InstalledSize", m.InstalledSize) + txt("PackageFormat", m.PackageFormat) + src
	return el("PISI", src+el("Package", t))
}

// published is what the index must say where the metadata says l.
func published(l []mText, trim bool) []mText {
	var out []mText
	for i, v := range l {
		if trim {
			v.Value = strings.TrimSpace(v.Value)
		}
		if i == 0 && v.Lang == "" {
			v.Lang = "en"
		}
		out = append(out, v)
	}
	return out
}

func sameTexts(g, w []mText) bool {
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		if g[i] != w[i] {
			return false
		}
	}
	return true
}

func sameList(g, w []string) bool {
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		if g[i] != w[i] {
			return false
		}
	}
	return true
}

func plainMeta() *mPackage {
	return &mPackage{
		Name: "foo", Summary: []mText{{"S", "en"}}, Description: []mText{{"D", "en"}}, PartOf: "c", License: []string{"L"},
		History:   []mUpdate{{Release: "2", Date: "2020-01-02", Version: "1.1", Comment: "c", Name: "P", Email: "p.x"}},
		BuildHost: "h", Distribution: "Solus", DistributionRelease: "1", Architecture: "x86_64", InstalledSize: "10", PackageFormat: "1.2",
		SourceName: "foo", Packager: "P", Email: "p.x",
	}
}

const plain = "ab. "

var special = []string{"&", "a<b", "x>y", "\"q\"", "it's", "]]>", "&#34;", "&amp;", "\u00e9\u4e2d", "a\nb", "\u20ac"}

// blanks that a text may begin or end with.
var blanks = []string{" ", "\t", "\n ", "\t\n", "\u00a0", "\u3000", "\u200b"}

func word(label string) string { return sym.Chars(label, "ab.+-", 2) }

// number is the text of an optional count.
func number(label string) string {
	switch sym.Choose(label, 3) {
	case 0:
		return ""
	case 1:
		return "7"
	}
	return sym.Chars(label+" digit", "12345678", 1) + "0"
}

func someWords(label string, max int) []string {
	var l []string
	for i := sym.Choose(label+" count", max+1); i > 0; i-- {
		l = append(l, word(label))
	}
	return l
}

func someTexts(label string, min int) []mText {
	var l []mText
	n := min + sym.Choose(label+" count", 3-min)
	for i := 0; i < n; i++ {
		lang := ""
		switch sym.Choose(label+" language", 3) {
		case 1:
			lang = "en"
		case 2:
			lang = sym.Chars(label+" lang", "abcd", 2)
		}
		l = append(l, mText{sym.Chars(label, plain, 3), lang})
	}
	return l
}

// HMetadata: everything a package's metadata tells users is in the index
// unchanged: each part of it with symbolic texts and counts in turn.
func HMetadata() {
	m := plainMeta()
	switch sym.Choose("part", 11) {
	case 10:
		// blanks around the texts
		v := blanks[sym.Choose("blank", len(blanks))]
		m.Summary = []mText{{v + "a" + v + "b", "en"}, {"a" + v + v, "de"}}
		m.Description = []mText{{v + "a" + v + "b" + v, ""}, {v, "de"}}
		m.History[0].Comment, m.BuildHost = v+"a"+v, v+"h"+v
	case 0:
		m.Summary = someTexts("summary", 0)
	case 1:
		m.Description = someTexts("description", 0)
	case 2:
		m.License = someWords("license", 3)
		m.IsA, m.PartOf = word("isa"), word("partof")
		if sym.Bool("no component") {
			m.IsA, m.PartOf = "", ""
		}
	case 3:
		for i := sym.Choose("dependencies", 3); i > 0; i-- {
			d := mDep{Name: word("dependency")}
			n, v := number("release"), word("version")
			switch sym.Choose("bound", 7) {
			case 1:
				d.ReleaseFrom = n
			case 2:
				d.ReleaseTo = n
			case 3:
				d.Release = n
			case 4:
				d.VersionFrom, d.VersionTo = v, word("version to")
			case 5:
				d.Version = v
			case 6:
				d.ReleaseFrom, d.ReleaseTo = n, "30"
			}
			m.Deps = append(m.Deps, d)
		}
	case 4:
		m.Conflicts, m.Replaces = someWords("conflict", 2), someWords("replaced", 2)
	case 5:
		m.PkgConfig, m.PkgConfig32 = someWords("pkgconfig", 2), someWords("pkgconfig32", 2)
		for i := sym.Choose("comar count", 3); i > 0; i-- {
			c := mComar{Value: word("comar")}
			if sym.Bool("script") {
				c.Script = word("script name")
			}
			m.COMAR = append(m.COMAR, c)
		}
	case 6:
		n := 1 + sym.Choose("updates", 3)
		m.History = nil
		for i := 0; i < n; i++ {
			u := mUpdate{Release: string(rune('5' - i)), Date: word("date"), Version: word("version"), Comment: sym.Chars("comment", plain, 3), Name: word("name"), Email: word("email")}
			if sym.Bool("typed") {
				u.Type = word("type")
			}
			for j := sym.Choose("actions", 3); j > 0; j-- {
				a := mAction{Value: word("action")}
				if j == 1 {
					a.Package = word("for package")
				}
				u.Requires = append(u.Requires, a)
			}
			m.History = append(m.History, u)
		}
	case 7:
		m.BuildHost, m.Distribution, m.DistributionRelease, m.Architecture = word("host"), word("distribution"), word("distribution release"), word("architecture")
		m.PackageFormat = word("format")
		m.InstalledSize = sym.Chars("size", "123456789", 1) + sym.Chars("size", "0123456789", 2)
	case 8:
		m.Name = word("name")
		m.SourceName = sym.Chars("source", "abAB", 2)
		m.Packager, m.Email = word("packager"), word("email")
		if sym.Bool("homepage") {
			m.Homepage = word("home")
		}
	case 9:
		// characters that mean something in markup
		v := special[sym.Choose("special", len(special))]
		m.Name, m.IsA, m.PartOf, m.License = v, v, v, []string{v}
		m.Summary, m.Description = []mText{{"a" + v + "b", "en"}}, []mText{{"a" + v, v}}
		m.Deps = []mDep{{Name: v, VersionFrom: v}, {Name: v, Release: "2"}}
		m.Conflicts, m.Replaces = []string{v}, []string{v, "k"}
		m.PkgConfig, m.COMAR = []string{v}, []mComar{{v, v}}
		m.History[0].Comment, m.History[0].Name, m.History[0].Email, m.History[0].Requires = v, v, v, []mAction{{v, v}}
		m.BuildHost, m.Homepage, m.Packager = v, v, v
	}
	w := newWorld()
	must(w.M.CreateRepo("a"))
	path := filepath.Join(w.Root, "in", "foo-2.eopkg")
	data := zipFile(path, "metadata.xml", m.render(), "files.xml", "<Files></Files>")
	must(w.M.AddPackages("a", []string{path}, false))
	switch sym.Choose("then", 3) {
	case 1:
		w.restart()
	case 2:
		// the published entry comes from a clone
		must(w.M.CloneRepo("a", "b", false))
		must(w.M.Index("b"))
		w.sumsMatch("b")
	}
	must(w.M.Index("a"))
	for _, id := range []string{"a", "b"} {
		if _, err := os.Stat(w.repoDir(id)); err != nil {
			continue
		}
		x := readFull(filepath.Join(w.repoDir(id), "eopkg-index.xml"))
		sym.Assert(len(x.Package) == 1, "the package is in the index")
		g := &x.Package[0]
		sym.Assert(g.Name == m.Name, "the name is published unchanged")
		sym.Assert(sameTexts(g.Summary, published(m.Summary, true)), "the summaries are published, trimmed, the first in English unless it says otherwise")
		sym.Assert(sameTexts(g.Description, published(m.Description, true)), "the descriptions are published, trimmed, the first in English unless it says otherwise")
		sym.Assert(g.IsA == m.IsA && g.PartOf == m.PartOf, "the component is published unchanged")
		sym.Assert(sameList(g.License, m.License), "the licenses are published unchanged")
		sym.Assert(len(g.Deps) == len(m.Deps), "every dependency is published")
		for i := range g.Deps {
			sym.Assert(g.Deps[i] == m.Deps[i], "the dependencies are published unchanged, with their bounds")
		}
		sym.Assert(sameList(g.Conflicts, m.Conflicts) && sameList(g.Replaces, m.Replaces), "conflicts and replacements are published unchanged")
		sym.Assert(sameList(g.PkgConfig, m.PkgConfig) && sameList(g.PkgConfig32, m.PkgConfig32) && len(g.COMAR) == len(m.COMAR), "what the package provides is published unchanged")
		for i := range g.COMAR {
			sym.Assert(g.COMAR[i] == m.COMAR[i], "the scripts are published unchanged")
		}
		sym.Assert(len(g.History) == len(m.History), "the whole history is published")
		for i := range g.History {
			a, b := &g.History[i], &m.History[i]
			sym.Assert(a.Release == b.Release && a.Type == b.Type && a.Date == b.Date && a.Version == b.Version && a.Comment == b.Comment && a.Name == b.Name && a.Email == b.Email, "the updates are published unchanged, in order")
			sym.Assert(len(a.Requires) == len(b.Requires), "the actions of an update are published")
			for j := range a.Requires {
				sym.Assert(a.Requires[j] == b.Requires[j], "the actions of an update are published unchanged")
			}
		}
		sym.Assert(g.BuildHost == m.BuildHost && g.Distribution == m.Distribution && g.DistributionRelease == m.DistributionRelease && g.Architecture == m.Architecture && g.PackageFormat == m.PackageFormat, "the build details are published unchanged")
		sym.Assert(g.InstalledSize == m.InstalledSize, "the installed size is published unchanged")
		sym.Assert(g.SourceName == m.SourceName && g.Homepage == m.Homepage && g.Packager == m.Packager && g.Email == m.Email, "the source and its packager are published unchanged")
		s := strings.ToLower(m.SourceName)
		sym.Assert(g.PackageURI == s[:1]+"/"+s+"/foo-2.eopkg" && g.PackageSize == int64(len(data)) && g.PackageHash == sha1hex(data), "location, size and hash are those of the file")
	}
	sym.Reach("published")
}

// someNames are three different names.
func someNames() [3]string {
	n := [3]string{sym.Chars("first name", "abB.", 1+sym.Choose("length", 3)), "b", sym.Chars("third name", "abB.", 1+sym.Choose("length", 2))}
	if sym.Bool("common names") {
		n = [3]string{"system.base", "desktop", "system.base.x"}
	}
	sym.Assume(n[0] != n[1] && n[1] != n[2] && n[0] != n[2])
	return n
}

// HAssetText: what the distribution, component and group assets say is in the
// index unchanged.
func HAssetText() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	s := &scene{World: w}
	asset := func(name, body string) {
		must(os.WriteFile(filepath.Join(s.assetDir("a"), name), []byte(el("PISI", body)), 0644))
	}
	var d mDist
	var comps []mComponent
	var groups []mGroup
	part := sym.Choose("part", 6)
	switch part {
	case 0:
		d = mDist{SourceName: word("source"), Version: word("version"), Type: word("type"), BinaryName: word("binary"), Obsoletes: someWords("obsolete", 2)}
		for i := sym.Choose("descriptions", 3); i > 0; i-- {
			t := mText{Value: sym.Chars("description", plain, 3)}
			if sym.Bool("language") {
				t.Lang = "de"
			}
			d.Description = append(d.Description, t)
		}
		body := txt("SourceName", d.SourceName)
		for _, t := range d.Description {
			body += txt("Description", t.Value, "xml:lang", t.Lang)
		}
		body += txt("Version", d.Version) + txt("Type", d.Type) + txt("BinaryName", d.BinaryName) + els("Obsoletes", "Package", d.Obsoletes)
		must(os.WriteFile(filepath.Join(s.assetDir("a"), "distribution.xml"), []byte(el("PISI", body)), 0644))
	case 1, 2, 3:
		c := mComponent{Name: "m", LocalName: []mText{{"L", "en"}}, Summary: []mText{{"S", "en"}}, Description: []mText{{"D", "en"}}, Group: word("group"), Maintainer: word("maintainer"), Email: word("email")}
		switch part {
		case 1:
			c.LocalName = someTexts("local name", 0)
		case 2:
			c.Summary = someTexts("summary", 0)
		case 3:
			c.Description = someTexts("description", 0)
		}
		comps = []mComponent{c}
		if sym.Bool("more") {
			e, f := c, c
			names := someNames()
			comps[0].Name, e.Name, f.Name = names[0], names[1], names[2]
			e.Group, e.Maintainer = "other", "else"
			e.Summary = []mText{{"T", ""}, {"U", "fr"}}
			f.Email = ""
			comps = append(comps, e, f)
		}
		body := ""
		for _, c := range comps {
			body += el("Component", txt("Name", c.Name)+texts("LocalName", c.LocalName)+texts("Summary", c.Summary)+texts("Description", c.Description)+txt("Group", c.Group)+el("Maintainer", txt("Name", c.Maintainer)+txt("Email", c.Email)))
		}
		asset("components.xml", el("Components", body))
	case 4, 5:
		g := mGroup{Name: "m", LocalName: someTexts("local name", 0), Icon: word("icon")}
		if part == 5 {
			v := special[sym.Choose("special", len(special))]
			g.LocalName, g.Icon = []mText{{"a" + v + "b", ""}, {v + "c", v}}, v
		}
		groups = []mGroup{g}
		if sym.Bool("more") {
			names := someNames()
			groups[0].Name = names[0]
			groups = append(groups, mGroup{Name: names[1], LocalName: []mText{{"T", ""}, {"U", "fr"}}, Icon: word("second icon")}, mGroup{Name: names[2], LocalName: g.LocalName, Icon: g.Icon})
		}
		body := ""
		for _, g := range groups {
			body += el("Group", txt("Name", g.Name)+texts("LocalName", g.LocalName)+txt("Icon", g.Icon))
		}
		asset("groups.xml", el("Groups", body))
	}
	must(w.M.Index("a"))
	x := readFull(filepath.Join(w.repoDir("a"), "eopkg-index.xml"))
	if part == 0 {
		sym.Assert(len(x.Distribution) == 1, "the distribution is published")
		g := &x.Distribution[0]
		sym.Assert(g.SourceName == d.SourceName && g.Version == d.Version && g.Type == d.Type && g.BinaryName == d.BinaryName, "the distribution is published unchanged")
		sym.Assert(sameTexts(g.Description, d.Description), "the distribution's descriptions are published unchanged")
		sym.Assert(sameList(g.Obsoletes, d.Obsoletes), "the obsolete names are published")
		sym.Reach("distribution")
	}
	sym.Assert(len(x.Component) == len(comps) && len(x.Group) == len(groups), "the index has exactly the components and groups of the assets")
	for i := range x.Component {
		sym.Assert(i == 0 || x.Component[i-1].Name < x.Component[i].Name, "the components come in the order of their names")
		g, c := &x.Component[i], (*mComponent)(nil)
		for j := range comps {
			if comps[j].Name == g.Name {
				c = &comps[j]
			}
		}
		sym.Assert(c != nil, "a component of the index is one of the assets'")
		sym.Assert(g.Name == c.Name && g.Group == c.Group && g.Maintainer == c.Maintainer && g.Email == c.Email, "a component is published unchanged")
		sym.Assert(sameTexts(g.LocalName, published(c.LocalName, false)) && sameTexts(g.Summary, published(c.Summary, false)) && sameTexts(g.Description, published(c.Description, false)),
			"a component's texts are published unchanged, the first in English unless it says otherwise")
		sym.Reach("component")
	}
	for i := range x.Group {
		sym.Assert(i == 0 || x.Group[i-1].Name < x.Group[i].Name, "the groups come in the order of their names")
		g, c := &x.Group[i], (*mGroup)(nil)
		for j := range groups {
			if groups[j].Name == g.Name {
				c = &groups[j]
			}
		}
		sym.Assert(c != nil, "a group of the index is one of the assets'")
		sym.Assert(g.Name == c.Name && g.Icon == c.Icon && sameTexts(g.LocalName, published(c.LocalName, false)), "a group is published unchanged, its first name in English unless it says otherwise")
		sym.Reach("group")
	}
}

// textOf is the text of the first element of that name within a document: what
// a reader of the document sees, character data and CDATA sections alike.
func textOf(doc, name string) string {
	i := 0
	for i < len(doc) && !(doc[i] == '<' && strings.HasPrefix(doc[i+1:], name) && (doc[i+1+len(name)] == '>' || doc[i+1+len(name)] == ' ')) {
		i++
	}
	sym.Assert(i < len(doc), "the text is in the published index")
	for doc[i] != '>' {
		i++
	}
	t := ""
	for i++; ; {
		switch {
		case strings.HasPrefix(doc[i:], "<![CDATA["):
			for i += 9; !strings.HasPrefix(doc[i:], "]]>"); i++ {
				t += doc[i : i+1]
			}
			i += 3
		case doc[i] == '<':
			return t
		case strings.HasPrefix(doc[i:], "&#x"):
			j := i + 3
			for doc[j] != ';' {
				j++
			}
			v, err := strconv.ParseUint(doc[i+3:j], 16, 32)
			sym.Assert(err == nil, "a character reference is a number")
			t += string(rune(v))
			i = j + 1
		default:
			sym.Assert(doc[i] != '&', "a symbolic character needs no other reference")
			t += doc[i : i+1]
			i++
		}
	}
}

// HCharacters: a text with any character outside ASCII is read from the
// published index as it was written, wherever it stands.
func HCharacters() {
	sym.Markup()
	r := rune(sym.Int("character", 0x80, 0x10ffff))
	sym.Assume((r < 0xd800 || r > 0xdfff) && r != 0xfffe && r != 0xffff)
	v := "a" + string(r) + "b"
	w := newWorld()
	must(w.M.CreateRepo("a"))
	s := &scene{World: w}
	asset := func(name, body string) {
		must(os.WriteFile(filepath.Join(s.assetDir("a"), name), []byte(el("PISI", body)), 0644))
	}
	m := plainMeta()
	name := ""
	switch sym.Choose("field", 11) {
	case 0:
		m.Summary, name = []mText{{v, "en"}}, "Summary"
	case 1:
		m.Description, name = []mText{{v, "en"}}, "Description"
	case 2:
		m.History[0].Comment, name = v, "Comment"
	case 3:
		m.History[0].Email, name = v, "Email"
	case 4:
		m.License, name = []string{v}, "License"
	case 5:
		m.Conflicts, name = []string{v}, "Conflicts"
		name = "Package"
	case 6:
		m.Deps, name = []mDep{{Name: v, Release: "2"}}, "Dependency"
	case 7:
		m.BuildHost, name = v, "BuildHost"
	case 8:
		asset("distribution.xml", txt("SourceName", "s")+txt("Description", v, "lang", "en")+txt("Version", "1")+txt("Type", "main")+txt("BinaryName", "b"))
		name = "Description"
	case 9:
		asset("components.xml", el("Components", el("Component", txt("Name", "c")+txt("LocalName", v, "xml:lang", "en")+el("Maintainer", txt("Name", "m")))))
		name = "LocalName"
	case 10:
		asset("groups.xml", el("Groups", el("Group", txt("Name", "c")+txt("LocalName", v, "xml:lang", "en")+txt("Icon", "i"))))
		name = "LocalName"
	}
	path := filepath.Join(w.Root, "in", "foo-2.eopkg")
	zipFile(path, "metadata.xml", m.render(), "files.xml", "<Files></Files>")
	must(w.M.AddPackages("a", []string{path}, false))
	b, err := os.ReadFile(filepath.Join(w.repoDir("a"), "eopkg-index.xml"))
	sym.Assert(err == nil, "an index is published")
	doc := string(b)
	if name == "Package" {
		i := strings.Index(doc, "<Conflicts>")
		sym.Assert(i > 0, "the conflicts are published")
		doc = doc[i:]
	}
	sym.Assert(textOf(doc, name) == v, "a text is read from the index as it was written, whatever its characters")
	sym.Reach("characters")
}
