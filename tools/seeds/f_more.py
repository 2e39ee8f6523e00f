seed("c33-zero-count","C33","a pool listing at the moment the last user drops a package",
 "a listing shows a package that nobody uses",
 [(POOL,"""	entry.RefCount--
	if entry.RefCount > 0 {
		return p.putEntry(db, entry)
	}
""","""	entry.RefCount--
	if err := p.putEntry(db, entry); err != nil {
		return err
	}
	if entry.RefCount > 0 {
		return nil
	}
""")],
"""// spy is a database whose entries are looked at before they are deleted.
type spy struct {
	libdb.Database
	look func() error
}

func (s *spy) Bucket(id []byte) libdb.Database { return &spy{s.Database.Bucket(id), s.look} }

func (s *spy) DeleteObject(id []byte) error {
	if err := s.look(); err != nil {
		return err
	}
	return s.Database.DeleteObject(id)
}

func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo", "foo", 1)
	p := d.m.pool
	err := p.UnrefEntry(&spy{d.m.db, func() error {
		items, err := d.m.GetPoolItems()
		if err != nil {
			return err
		}
		for _, i := range items {
			if i.RefCount < 1 {
				t.Error("a package without users is listed")
			}
		}
		return nil
	}}, pkgID("foo", "1", 1))
	d.ok(err)
}""",imports=("github.com/getsolus/ferryd/src/libdb",))
seed("c08-first-match","C08","two versions of one source and release are available under the same name",
 "only the first of them is removed",
 [(REPO,"""			deleteIDs = append(deleteIDs, id)
		}""","""			deleteIDs = append(deleteIDs, id)
			if release > 0 {
				break
			}
		}""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	for _, v := range []string{"1", "2"} {
		id := pkgID("foo", v, 3)
		d.ok(d.m.AddPackages("a", []string{d.file(id, "foo", "foo", v, 3)}, false))
	}
	d.ok(d.m.RemoveSource("a", "foo", 3))
	d.want("available", d.entry("a", "foo").Available, "[]")
}""")
seed("c12-own-size","C12","the metadata of a package names a size of its own",
 "the index shows that size instead of the file's",
 [(POOL,"""	pkg.Meta.Package.PackageSize = st.Size()""","""	if pkg.Meta.Package.PackageSize == 0 {
		pkg.Meta.Package.PackageSize = st.Size()
	}""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	path := filepath.Join(d.in, pkgID("foo", "1", 1))
	f, err := os.Create(path)
	d.ok(err)
	z := zip.NewWriter(f)
	w, err := z.Create("metadata.xml")
	d.ok(err)
	meta := fmt.Sprintf(demoMeta, "foo", "foo", "1", 1)
	w.Write([]byte(strings.Replace(meta, "<PackageFormat>", "<PackageSize>7</PackageSize><PackageFormat>", 1)))
	d.ok(z.Close())
	d.ok(f.Close())
	d.ok(d.m.AddPackages("a", []string{path}, false))
	d.ok(d.m.Index("a"))
	b, err := os.ReadFile(filepath.Join(d.base, "repo", "a", "eopkg-index.xml"))
	d.ok(err)
	if strings.Contains(string(b), "<PackageSize>7</PackageSize>") {
		t.Fatal("wrong size published")
	}
}""",imports=("archive/zip","fmt","os","path/filepath","strings"))
seed("c12-dbginfo-middle","C12","a package with -dbginfo in the middle of its name",
 "it is left out of the index when what comes before is obsolete",
 [(INDEX,"""	if strings.HasSuffix(nom, "-dbginfo") {
		nom = nom[0 : len(nom)-8]
	}
""","""	if i := strings.Index(nom, "-dbginfo"); i > 0 {
		nom = nom[:i]
	}
""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo-dbginfo-tools", "foo", 1)
	d.asset("a", "distribution.xml", "<PISI><SourceName>Solus</SourceName><Version>1</Version><Obsoletes><Package>foo</Package></Obsoletes></PISI>")
	d.ok(d.m.Index("a"))
	b, err := os.ReadFile(filepath.Join(d.base, "repo", "a", "eopkg-index.xml"))
	d.ok(err)
	if !strings.Contains(string(b), "foo-dbginfo-tools") {
		t.Fatal("a package is not published")
	}
}""",imports=("os","path/filepath","strings"))
seed("c10-dbginfo-twice","C10","a package whose name ends in -dbginfo twice",
 "it is removed although neither it nor its base name is obsolete",
 [(REPO,"""			if strings.HasSuffix(nom, "-dbginfo") {
				nom""","""			for strings.HasSuffix(nom, "-dbginfo") {
				nom""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo-dbginfo-dbginfo", "foo", 1)
	d.asset("a", "distribution.xml", "<PISI><SourceName>Solus</SourceName><Version>1</Version><Obsoletes><Package>foo</Package></Obsoletes></PISI>")
	d.ok(d.m.TrimObsolete("a"))
	d.want("available", d.entry("a", "foo-dbginfo-dbginfo").Available, []string{pkgID("foo-dbginfo-dbginfo", "1", 1)})
}""")
seed("c33-trim-unlocked","C33","obsolete packages are trimmed while the index of the repository is being published",
 "the two change the repository's list of obsolete packages at the same time",
 [(REPO,"""func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
	r.indexMut.Lock()
	defer r.indexMut.Unlock()
""","""func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
	r.insertMut.Lock()
	r.insertMut.Unlock()
""")],
"""// Publishing waits in the middle of reading the list: it is a pipe.
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo", "foo", 1)
	r, err := d.m.repo.GetRepo(d.m.db, "a")
	d.ok(err)
	d.asset("a", "distribution.xml", "")
	list := filepath.Join(r.assetPath, "distribution.xml")
	d.ok(os.Remove(list))
	d.ok(syscall.Mkfifo(list, 0644))
	go r.Index(d.m.db, d.m.pool)
	w, err := os.OpenFile(list, os.O_WRONLY, 0) // publishing reads it now
	d.ok(err)
	d.ok(os.Remove(list))
	done := make(chan bool)
	go func() {
		r.TrimObsolete(d.m.db, d.m.pool)
		close(done)
	}()
	select {
	case <-done:
		t.Error("trimming does not wait for publishing")
	case <-time.After(time.Second):
	}
	w.WriteString("<PISI><SourceName>A</SourceName></PISI>")
	w.Close()
	<-done
}""",imports=("os","path/filepath","syscall","time"))
seed("c12-sum-head","C12","an index of more than 64 KiB",
 "the published SHA-1 sums cover only the beginning of the file",
 [("src/ferryd/core/util.go","""	h := sha1.New()
	// Pump from memory into hash for zero-copy sha1sum
	h.Write(mfile.Data)""","""	h := sha1.New()
	data := mfile.Data
	if len(data) > 1<<16 {
		data = data[:1<<16]
	}
	h.Write(data)""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.asset("a", "groups.xml", "<PISI><Groups><Group><Name>g</Name><LocalName>"+strings.Repeat("x", 100000)+"</LocalName><Icon>i</Icon></Group></Groups></PISI>")
	d.ok(d.m.Index("a"))
	p := filepath.Join(d.base, "repo", "a", "eopkg-index.xml")
	b, err := os.ReadFile(p)
	d.ok(err)
	sum, err := os.ReadFile(p + ".sha1sum")
	d.ok(err)
	if string(sum) != fmt.Sprintf("%x", sha1.Sum(b)) {
		t.Fatal("wrong checksum published")
	}
}""",imports=("crypto/sha1","fmt","os","path/filepath","strings"))
seed("c06-copy-block","C06","an asset whose size is not a multiple of 32 KiB is pulled",
 "the copy is filled up with stale bytes to a multiple of the buffer size",
 [("src/ferryd/core/util.go","""	if _, err = io.Copy(dst, src); err != nil {
""","""	buf := make([]byte, 32*1024)
	for err == nil {
		var n int
		if n, err = src.Read(buf); n > 0 {
			// Keep to full blocks for anything larger than one
			if st.Size() > int64(len(buf)) {
				n = len(buf)
			}
			if _, werr := dst.Write(buf[:n]); werr != nil {
				err = werr
			}
		}
	}
	if err == io.EOF {
		err = nil
	}
	if err != nil {
""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.ok(d.m.CreateRepo("b"))
	text := "<PISI><Groups><Group><Name>g</Name><LocalName>" + strings.Repeat("x", 100000) + "</LocalName><Icon>i</Icon></Group></Groups></PISI>"
	d.asset("a", "groups.xml", text)
	_, err := d.m.PullRepo("a", "b")
	d.ok(err)
	r, err := d.m.repo.GetRepo(d.m.db, "b")
	d.ok(err)
	b, err := os.ReadFile(filepath.Join(r.assetPath, "groups.xml"))
	d.ok(err)
	if string(b) != text {
		t.Fatal("the pulled asset differs")
	}
}""",imports=("os","path/filepath","strings"))
seed("c23-sum-head","C23","a payload of more than 64 KiB is damaged behind that",
 "only the beginning of the file is verified",
 [("src/ferryd/core/util.go","""	h := sha256.New()
	// Pump from memory into hash for zero-copy sha1sum
	h.Write(mfile.Data)""","""	h := sha256.New()
	for n := 0; n < len(mfile.Data) && n < 1<<20; n += 4096 {
		end := n + 4096
		if end > len(mfile.Data) {
			end = len(mfile.Data)
		}
		h.Write(mfile.Data[n:end])
	}""")],
"""func TestDemo(t *testing.T) {
	dir := t.TempDir()
	data := strings.Repeat("x", 1<<20) + "y"
	os.WriteFile(filepath.Join(dir, "a.eopkg"), []byte(data), 0644)
	tram := filepath.Join(dir, "a.tram")
	os.WriteFile(tram, []byte(fmt.Sprintf("[manifest]\\nversion = '1.0'\\ntarget = 'a'\\n[[file]]\\npath = 'a.eopkg'\\nsha256 = '%x'\\n", sha256.Sum256([]byte(data)))), 0644)
	m, err := NewTransitManifest(tram)
	if err != nil {
		t.Fatal(err)
	}
	if err := m.ValidatePayload(); err != nil {
		t.Fatal(err)
	}
}""",imports=("crypto/sha256","fmt","os","path/filepath","strings"))
