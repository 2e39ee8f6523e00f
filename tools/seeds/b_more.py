DB="src/libdb/leveldb.go"; STORE="src/ferryd/jobs/store.go"; DELTA="src/libeopkg/delta.go"; META="src/libeopkg/metadata.go"; TRANSIT="src/ferryd/jobs/transit_job.go"; TRAM="src/ferryd/core/transit_manifest.go"; MONITOR="src/ferryd/monitor.go"
seed("c04-strict-last","C04","releases 9 and 10 of one name are listed, so the newest one is not the last by file name, and an upload repeats the newest release",
 "strict imports compare with the version whose name sorts last instead of the newest one",
 [(REPO,"""	published, err := pool.GetEntry(db, localPkg.Published)
	if err != nil {
		return err
	}

	// We must""","""	published, err := pool.GetEntry(db, localPkg.Available[len(localPkg.Available)-1])
	if err != nil {
		return err
	}

	// We must""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo", "foo", 9, 10)
	d.refused(d.m.AddPackages("a", []string{d.file(pkgID("foo", "2", 10), "foo", "foo", "2", 10)}, true), "another version of the newest release")
}""")
seed("c07-source-prefix","C07","two sources of which one's name continues the other's",
 "copying a source also copies packages of sources whose names start alike",
 [(REPO,"""			if poolEntry.Meta.Source.Name != sourceID {
				continue
			}

			// if release is -1 we copy""","""			if !strings.HasPrefix(poolEntry.Meta.Source.Name, sourceID) {
				continue
			}

			// if release is -1 we copy""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.ok(d.m.CreateRepo("b"))
	d.add("a", "foo", "foo", 1)
	d.add("a", "foobar", "foobar", 1)
	d.ok(d.m.CopySource("a", "b", "foo", -1, false))
	d.want("available", d.entry("b", "foobar").Available, "[]")
}""")
seed("c11-stale-staging","C11","a staged delta is left over when its repository is deleted and created again",
 "deleting a repository leaves its delta staging directory behind, for its successor to pick up",
 [(REPO,"""		repo.deltaPath,
		repo.deltaStagePath,
	}

	// Clean up""","""		repo.deltaPath,
	}

	// Clean up""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	stage := filepath.Join(d.base, DeltaStagePathComponent, "a")
	d.ok(os.MkdirAll(stage, 0755))
	d.ok(os.WriteFile(filepath.Join(stage, "x.delta.eopkg"), []byte("x"), 0644))
	d.ok(d.m.DeleteRepo("a"))
	d.gone(DeltaStagePathComponent, "a", "x.delta.eopkg")
}""",imports=("os","path/filepath"))
seed("c19-sequence-order","C19","more than 256 jobs are waiting",
 "keys are stored with their low byte first, so jobs overwrite each other and change order once 256 are waiting",
 [(DB,"""			retKey = binary.BigEndian.Uint64(newKey) + 1""","""			retKey = binary.LittleEndian.Uint64(newKey) + 1"""),
  (DB,"""	binary.BigEndian.PutUint64(byt, retKey)""","""	binary.LittleEndian.PutUint64(byt, retKey)""")],
"""func TestDemo(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	for i := 0; i < 300; i++ {
		if err := s.PushSequentialJob(NewTrimPackagesJob("a", i)); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 300; i++ {
		j, err := s.ClaimSequentialJob()
		if err != nil {
			t.Fatal(i, err)
		}
		if j.Params[1] != strconv.Itoa(i) {
			t.Fatalf("job %d was %s", i, j.Params[1])
		}
	}
}""",pkg="jobs",helper="jobs_helper.go.txt",imports=("strconv",))
seed("c20-unclaim-first","C20","two background jobs are running when the daemon dies",
 "only the first interrupted job is made runnable again, the others stay claimed forever",
 [(STORE,"""			return bucket.PutObject(id, j)
		})
	})
}

// UnclaimSequential""","""			if err := bucket.PutObject(id, j); err != nil {
				return err
			}
			return ErrBreakLoop
		})
	})
}

// UnclaimSequential"""),(STORE,"""	return s.db.Update(func(db libdb.Database) error {
		bucket := db.Bucket(bucketID)

		// Loop all claimed jobs, unclaim them
		return bucket.ForEach(func(id, value []byte) error {""","""	return s.db.Update(func(db libdb.Database) (err error) {
		bucket := db.Bucket(bucketID)
		defer func() {
			if err == ErrBreakLoop {
				err = nil
			}
		}()

		// Loop all claimed jobs, unclaim them
		return bucket.ForEach(func(id, value []byte) error {""")],
"""func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s, err := NewStore(dir)
	if err != nil {
		t.Fatal(err)
	}
	for _, p := range []string{"foo", "bar"} {
		if err := s.PushAsyncJob(NewDeltaJob("a", p)); err != nil {
			t.Fatal(err)
		}
		if _, err := s.ClaimAsyncJob(); err != nil {
			t.Fatal(err)
		}
	}
	s.Close()
	if s, err = NewStore(dir); err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	for i := 0; i < 2; i++ {
		if _, err := s.ClaimAsyncJob(); err != nil {
			t.Fatal("interrupted job", i, err)
		}
	}
}""",pkg="jobs",helper="jobs_helper.go.txt")
seed("c21-history-bound","C21","more jobs have completed than the history holds",
 "the history grows one record beyond its bound",
 [(STORE,"""	if record.Index >= MaxJobsStored {""","""	if record.Index > MaxJobsStored {""")],
"""func TestDemo(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	for i := 0; i < MaxJobsStored+5; i++ {
		if err := s.PushSequentialJob(NewIndexRepoJob("a")); err != nil {
			t.Fatal(err)
		}
		j, err := s.ClaimSequentialJob()
		if err != nil {
			t.Fatal(err)
		}
		if err := s.RetireSequentialJob(j); err != nil {
			t.Fatal(err)
		}
	}
	c, err := s.CompletedJobs()
	if err != nil {
		t.Fatal(err)
	}
	if len(c) != MaxJobsStored {
		t.Fatalf("%d records", len(c))
	}
}""",pkg="jobs",helper="jobs_helper.go.txt")
seed("c25-empty-hash","C25","both versions have entries without a hash (directories, links), of which some are new",
 "entries without a hash are left out of the delta when the old version has any such entry",
 [(DELTA,"""		if _, ok := hashOldFiles[h]; ok && h != "" {""","""		if _, ok := hashOldFiles[h]; ok {""")],
"""func TestDemo(t *testing.T) {
	old := demoPackage(t, 1, demoItem{"usr/a", "1", "same"}, demoItem{"usr/old", "-", "a"})
	new := demoPackage(t, 2, demoItem{"usr/a", "1", "same"}, demoItem{"usr/b", "2", "b"}, demoItem{"usr/new", "-", "b"})
	if got := demoDelta(t, old, new); got != "usr/b=b usr/new=b" {
		t.Fatal(got)
	}
}""",pkg="libeopkg",helper="libeopkg_helper.go.txt")
seed("c24-failed-consumed","C24","the manifest verifies but one of its packages is refused by the target",
 "the manifest of an upload is deleted when its import fails, so it cannot be repeated",
 [(TRANSIT,"""	pkgs := tram.GetPaths()
	if err = manager.AddPackages(repo, pkgs, true); err != nil {
		return err
	}
""","""	pkgs := tram.GetPaths()
	err = manager.AddPackages(repo, pkgs, true)
	if err != nil {
		os.Remove(j.path)
		return err
	}
""")],
"""func TestDemo(t *testing.T) {
	m, err := core.NewManager(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	if err := m.CreateRepo("a"); err != nil {
		t.Fatal(err)
	}
	os.WriteFile(filepath.Join(m.IncomingPath, "x.eopkg"), []byte("not a package"), 0644)
	sum := fmt.Sprintf("%x", sha256.Sum256([]byte("not a package")))
	tram := filepath.Join(m.IncomingPath, "x.tram")
	os.WriteFile(tram, []byte("[manifest]\\nversion = \\"1.0\\"\\ntarget = \\"a\\"\\n[[file]]\\npath = \\"x.eopkg\\"\\nsha256 = \\""+sum+"\\"\\n"), 0644)
	h, err := NewJobHandler(NewTransitJob(tram))
	if err != nil {
		t.Fatal(err)
	}
	if h.Execute(nil, m) == nil {
		t.Fatal("imported")
	}
	if _, err := os.Stat(tram); err != nil {
		t.Fatal(err)
	}
}""",pkg="jobs",helper="jobs_helper.go.txt",imports=("os","path/filepath","fmt","crypto/sha256","github.com/getsolus/ferryd/src/ferryd/core"))
seed("c23-first-sum","C23","a manifest lists one file twice, with two different checksums",
 "a file that is listed again is not verified again",
 [(TRAM,"""	for i := range t.File {
		f := &t.File[i]
		path := filepath.Join(t.dir, f.Path)
		sha, err""","""	seen := make(map[string]bool)
	for i := range t.File {
		f := &t.File[i]
		path := filepath.Join(t.dir, f.Path)
		if seen[path] {
			continue
		}
		seen[path] = true
		sha, err""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(os.WriteFile(filepath.Join(d.in, "x.eopkg"), []byte("x"), 0644))
	text := "[manifest]\\nversion = \\"1.0\\"\\ntarget = \\"a\\"\\n"
	for _, s := range []string{fmt.Sprintf("%x", sha256.Sum256([]byte("x"))), "00"} {
		text += "[[file]]\\npath = \\"x.eopkg\\"\\nsha256 = \\"" + s + "\\"\\n"
	}
	d.ok(os.WriteFile(filepath.Join(d.in, "x.tram"), []byte(text), 0644))
	m, err := NewTransitManifest(filepath.Join(d.in, "x.tram"))
	d.ok(err)
	d.refused(m.ValidatePayload(), "a wrong checksum")
}""",imports=("os","path/filepath","fmt","crypto/sha256"))
seed("c26-tip-by-name","C26","releases 9 and 10 of one name are listed",
 "the newest version is taken to be the one whose name sorts last, so deltas lead to an older one",
 [("src/ferryd/jobs/delta.go","""	sort.Sort(libeopkg.PackageSet(pkgs))""","""	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].GetID() < pkgs[j].GetID() })""")],
"""func TestDemo(t *testing.T) {
	m, err := core.NewManager(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	if err := m.CreateRepo("a"); err != nil {
		t.Fatal(err)
	}
	if err := m.CreateRepo("b"); err != nil {
		t.Fatal(err)
	}
	file := func(id string, release int) string {
		path := filepath.Join(t.TempDir(), id)
		f, err := os.Create(path)
		if err != nil {
			t.Fatal(err)
		}
		z := zip.NewWriter(f)
		w, _ := z.Create("metadata.xml")
		fmt.Fprintf(w, meta, release)
		z.Close()
		f.Close()
		return path
	}
	ids := []string{"foo-1-9-1-x86_64.eopkg", "foo-1-10-1-x86_64.eopkg"}
	for i, id := range ids {
		path := file(id, 9+i)
		for _, r := range []string{"a", "b"} {
			if err := m.AddPackages(r, []string{path}, false); err != nil {
				t.Fatal(err)
			}
		}
	}
	delta := "foo-9-10-1-x86_64.delta.eopkg"
	if err := m.AddDelta("b", file(delta, 10), &core.DeltaInformation{FromID: ids[0], ToID: ids[1]}); err != nil {
		t.Fatal(err)
	}
	h, err := NewJobHandler(NewDeltaJob("a", "foo"))
	if err != nil {
		t.Fatal(err)
	}
	if err := h.Execute(nil, m); err != nil {
		t.Fatal(err)
	}
	if has, err := m.HasDelta("a", "foo", delta); err != nil || !has {
		t.Fatal("the delta another repository has was not taken over", err)
	}
}

const meta = `<PISI><Source><Name>foo</Name></Source><Package><Name>foo</Name><Summary xml:lang="en">S</Summary><Description xml:lang="en">D</Description><History><Update release="%d"><Date>2020-01-01</Date><Version>1</Version></Update></History><Distribution>Solus</Distribution><DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><PackageFormat>1.2</PackageFormat><Source><Name>foo</Name></Source></Package></PISI>`""",pkg="jobs",helper="jobs_helper.go.txt",imports=("os","path/filepath","fmt","archive/zip","github.com/getsolus/ferryd/src/ferryd/core"))
