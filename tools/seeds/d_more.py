API="src/ferryd/core/api.go"; COMP="src/libeopkg/components.go"; TYPES="src/libferry/types.go"
seed("c37-component-order","C37","the component asset has names of different lengths",
 "the components of the index are ordered by the length of their names",
 [(COMP,"""	return g[a].Name < g[b].Name""","""	if len(g[a].Name) != len(g[b].Name) {
		return len(g[a].Name) < len(g[b].Name)
	}
	return g[a].Name < g[b].Name""")],
"""func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "components.xml")
	os.WriteFile(p, []byte("<PISI><Components><Component><Name>b</Name></Component><Component><Name>aa</Name></Component></Components></PISI>"), 0644)
	c, err := NewComponents(p)
	if err != nil {
		t.Fatal(err)
	}
	if c.Components[0].Name != "aa" {
		t.Fatal(c.Components[0].Name)
	}
}""",pkg="libeopkg",helper="empty_libeopkg.go.txt",imports=("os","path/filepath"))
seed("c37-action-package","C37","an update of a package's history asks for an action that concerns one package only",
 "the package an action concerns is lost",
 [(META,"""	Package string `xml:"package,attr,omitempty"` // i.e. package="kernel\"""","""	Package string `xml:"Package,attr,omitempty"` // i.e. package="kernel\"""")],
"""func TestDemo(t *testing.T) {
	a := Action{}
	if err := xml.Unmarshal([]byte(`<Action package="kernel">reboot</Action>`), &a); err != nil {
		t.Fatal(err)
	}
	if a.Package != "kernel" {
		t.Fatal(a)
	}
}""",pkg="libeopkg",helper="empty_libeopkg.go.txt",imports=("encoding/xml",))
seed("c38-bake-first","C38","a command names a repository that does not exist",
 "the directories of a repository that does not exist are created",
 [(REPO,"""	var rTmp Repository
	rootBucket := db.Bucket([]byte(DatabaseBucketRepo))
	if err := rootBucket.GetObject([]byte(id), &rTmp); err != nil {
		return nil, fmt.Errorf("The specified repository '%s' does not exist", id)
	}

	repository, err := r.bakeRepo(id)
	if err != nil {
		return nil, err
	}
""","""	repository, err := r.bakeRepo(id)
	if err != nil {
		return nil, err
	}

	var rTmp Repository
	rootBucket := db.Bucket([]byte(DatabaseBucketRepo))
	if err := rootBucket.GetObject([]byte(id), &rTmp); err != nil {
		return nil, fmt.Errorf("The specified repository '%s' does not exist", id)
	}
""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.refused(d.m.Index("nope"), "indexing nothing")
	d.gone("repo", "nope")
}""")
seed("c38-clone-order","C38","a clone of a repository that does not exist",
 "the clone fails but leaves an empty repository of the new name",
 [(API,"""	// Try to get the source repo
	sourceRepo, err := m.repo.GetRepo(m.db, repoID)
	if err != nil {
		return err
	}

	// Try and make our target repo. We internally ensure it doesn't already
	// exist
	newRepo, err := m.repo.CreateRepo(m.db, newClone)
	if err != nil {
		return err
	}
""","""	// Try and make our target repo. We internally ensure it doesn't already
	// exist
	newRepo, err := m.repo.CreateRepo(m.db, newClone)
	if err != nil {
		return err
	}

	// Try to get the source repo
	sourceRepo, err := m.repo.GetRepo(m.db, repoID)
	if err != nil {
		return err
	}
""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.refused(d.m.CloneRepo("nope", "new", true), "cloning nothing")
	d.ok(d.m.CreateRepo("new"))
}""")
seed("c39-copy-error","C39","copying an asset fails in the middle, for example because the disk is full",
 "a clone or pull reports success although an asset was copied only in part",
 [(UTIL,"""	if _, err = io.Copy(dst, src); err != nil {
		dst.Close()
		return err
	}
	dst.Close()
""","""	io.Copy(dst, src)
	dst.Close()
""")],
"""func TestDemo(t *testing.T) {
	dir := t.TempDir() // can be opened but not read
	if err := CopyFile(dir, filepath.Join(dir, "copy")); err == nil {
		t.Fatal("copied what can't be read")
	}
}""",imports=("path/filepath",))
seed("c39-rename-error","C39","moving a new index file into place fails",
 "an operation reports success although the old index is still published",
 [(INDEX,"""		if errAbort = os.Rename(k, v); errAbort != nil {
			return errAbort
		}
""","""		os.Rename(k, v)
""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	p := filepath.Join(d.base, "repo", "a", "eopkg-index.xml.zst.sha256sum")
	d.ok(os.Remove(p))
	d.ok(os.MkdirAll(filepath.Join(p, "x"), 0755))
	d.refused(d.m.Index("a"), "publishing an index that can't be moved into place")
}""",imports=("os","path/filepath"))
seed("c40-second","C40","several requests are queued within one second",
 "status shows the jobs of one second in any order",
 [(TYPES,"""	return j[a].Timing.Queued.Before(j[b].Timing.Queued)""","""	return j[a].Timing.Queued.Unix() < j[b].Timing.Queued.Unix()""")],
"""func TestDemo(t *testing.T) {
	var l JobSet
	for i := 0; i < 3; i++ {
		j := &Job{}
		j.Timing.Queued = time.Unix(1, int64(3-i))
		l = append(l, j)
	}
	sort.Sort(l)
	if !l[0].Timing.Queued.Before(l[2].Timing.Queued) {
		t.Fatal("not in order")
	}
}""",pkg="libferry",helper="empty_libferry.go.txt",imports=("sort","time"))
seed("c40-background","C40","jobs wait in both queues at once",
 "status leaves out the background jobs while others wait",
 [(STORE,"""	if err := s.cloneCurrentJobs(&ret, []byte(BucketAsyncJobs)); err != nil {
		return nil, err
	}
""","""	if len(ret) == 0 {
		if err := s.cloneCurrentJobs(&ret, []byte(BucketAsyncJobs)); err != nil {
			return nil, err
		}
	}
""")],
"""func TestDemo(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	s.PushSequentialJob(NewIndexRepoJob("a"))
	s.PushAsyncJob(NewIndexRepoJob("b"))
	if l, err := s.ActiveJobs(); err != nil || len(l) != 2 {
		t.Fatal(l, err)
	}
}""",pkg="jobs",helper="jobs_helper.go.txt")
seed("c14-link-exists","C14","the process dies while a package is copied from another file system, and the import is repeated",
 "the part that was copied before the crash is taken for the whole package",
 [(UTIL,"""	if os.Link(source, dest) == nil {
		return nil
	}
""","""	if err := os.Link(source, dest); err == nil || os.IsExist(err) {
		return nil
	}
""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	id := pkgID("foo", "1", 1)
	d.add("a", "foo", "foo", 1)
	p := filepath.Join(d.base, "repo", "a", "f", "foo", pkgID("foo", "1", 2))
	d.ok(os.WriteFile(p, []byte("part"), 0644))
	d.add("a", "foo", "foo", 2)
	d.there("repo", "a", "f", "foo", id)
	d.there("repo", "a", "f", "foo", pkgID("foo", "1", 2))
}""",imports=("os","path/filepath"))
seed("c06-version","C06","a rebuild of a package has a new release but the same version",
 "pulling leaves out packages that were only rebuilt",
 [(REPO,"""		if tipVer.Meta.GetRelease() > ourTip.Meta.GetRelease() {""","""		if tipVer.Meta.GetRelease() > ourTip.Meta.GetRelease() && tipVer.Meta.GetVersion() != ourTip.Meta.GetVersion() {""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.ok(d.m.CreateRepo("b"))
	d.add("b", "foo", "foo", 1)
	d.add("a", "foo", "foo", 2)
	_, err := d.m.PullRepo("a", "b")
	d.ok(err)
	d.want("published", d.entry("b", "foo").Published, pkgID("foo", "1", 2))
}""")
seed("c08-delta-release","C08","another source provides a package of the same name and release",
 "removing one version also drops the deltas to another version of the same release",
 [(REPO,"""pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID""","""pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToRelease == poolEntry.Meta.GetRelease()""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo", "foo", 1, 2)
	other := pkgID("foo", "2", 2)
	d.ok(d.m.AddPackages("a", []string{d.file(other, "foo", "bar", "2", 2)}, false))
	d.add("a", "foo", "foo", 3)
	d.delta("a", "foo", "foo", 1, 2)
	d.ok(d.m.RemoveSource("a", "bar", 2))
	d.want("deltas", d.entry("a", "foo").Deltas, "["+deltaID("foo", 1, 2)+"]")
}""")
seed("c12-depends-obsolete","C12","a package depends on one that is obsolete",
 "the index leaves out packages that depend on obsolete ones instead of only warning about them",
 [(INDEX,"""				}).Warning("Encountered uninstallable package depending on obsolete package. Please address")
""","""				}).Warning("Encountered uninstallable package depending on obsolete package. Please address")
				return nil
""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo", "foo", 1)
	p := filepath.Join(d.in, "bar.eopkg")
	f, err := os.Create(p)
	d.ok(err)
	z := zip.NewWriter(f)
	w, err := z.Create("metadata.xml")
	d.ok(err)
	fmt.Fprint(w, strings.Replace(fmt.Sprintf(demoMeta, "bar", "bar", "1", 1), "<History>", "<RuntimeDependencies><Dependency>foo</Dependency></RuntimeDependencies><History>", 1))
	d.ok(z.Close())
	d.ok(f.Close())
	d.ok(d.m.AddPackages("a", []string{p}, false))
	d.ok(os.WriteFile(filepath.Join(d.base, "assets", "a", "distribution.xml"), []byte("<PISI><SourceName>S</SourceName><Obsoletes><Package>foo</Package></Obsoletes></PISI>"), 0644))
	d.ok(d.m.Index("a"))
	b, err := os.ReadFile(filepath.Join(d.base, "repo", "a", "eopkg-index.xml"))
	d.ok(err)
	if !strings.Contains(string(b), "<Name>bar</Name>") {
		t.Fatal("bar is not in the index")
	}
}""",imports=("os","path/filepath","archive/zip","fmt","strings"))
