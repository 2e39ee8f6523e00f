seed("c29-lib-bound","C29","a source whose name is lib and one more character",
 "packages of such a source are stored under l/ instead of the documented directory",
 [(META,"""	if strings.HasPrefix(nom, "lib") && len(nom) > 3 {""","""	if strings.HasPrefix(nom, "lib") && len(nom) > 4 {""")],
"""func TestDemo(t *testing.T) {
	m := &MetaPackage{Source: Source{Name: "libx"}}
	if p := m.GetPathComponent(); p != "libx/libx" {
		t.Fatal(p)
	}
}""",pkg="libeopkg",helper="empty_libeopkg.go.txt")
seed("c27-clean-unowned","C27","a second daemon is started on a directory that is in use and gives up, then a third one is started",
 "a daemon that did not get the lock removes the lock file of the one that owns it",
 [("src/ferryd/lockfile.go","""	if l.fd == nil || !l.owner {
		return nil
	}""","""	if l.fd == nil {
		return nil
	}""")],
"""func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "lock")
	lock := func() (*LockFile, error) {
		l, err := NewLockFile(path)
		if err != nil {
			t.Fatal(err)
		}
		return l, l.Lock()
	}
	first, err := lock()
	if err != nil {
		t.Fatal(err)
	}
	defer first.Clean()
	second, err := lock()
	if err == nil {
		t.Fatal("locked twice")
	}
	second.Clean()
	if _, err := lock(); err == nil {
		t.Fatal("locked twice")
	}
}""",pkg="main",helper="main_helper.go.txt",imports=("path/filepath",))
seed("c32-delta-name","C32","a package has the word delta in its own name",
 "packages that have delta anywhere in their name are taken for delta packages and left out of an import",
 [("src/ferryctl/cmd/import.go","""				if strings.HasSuffix(fileInfo.Name(), "x86_64.eopkg") { // Not a delta""","""				if strings.HasSuffix(fileInfo.Name(), "x86_64.eopkg") && !strings.Contains(fileInfo.Name(), "delta") { // Not a delta""")],
"""func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "git-delta-1-1-1-x86_64.eopkg"), nil, 0644)
	files, err := GetEopkgs(dir)
	if err != nil || len(files) != 1 {
		t.Fatal(files, err)
	}
}""",pkg="cmd",helper="cmd_helper.go.txt",imports=("os","path/filepath"))
seed("c34-partial","C34","an uploader writes the manifest under a temporary name that continues its own, such as x.tram.part",
 "a manifest that is still being uploaded is processed",
 [(MONITOR,"""					if strings.HasSuffix(event.Name, core.TransitManifestSuffix) {""","""					if strings.Contains(filepath.Base(event.Name), core.TransitManifestSuffix) {""")],
"""func TestDemo(t *testing.T) {
	baseDir = t.TempDir()
	socketPath = filepath.Join(baseDir, "sock")
	s, err := NewServer()
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Bind(); err != nil {
		t.Fatal(err)
	}
	s.WatchIncoming()
	os.WriteFile(filepath.Join(s.manager.IncomingPath, "x.tram.part"), []byte("x"), 0644)
	time.Sleep(time.Second)
	s.StopWatching()
	j, err := s.store.ActiveJobs()
	if err != nil || len(j) != 0 {
		t.Fatal(len(j), err)
	}
}""",pkg="main",helper="main_helper.go.txt",imports=("os","path/filepath","time"))
seed("c31-claim-unlocked","C31","two workers look for a job at the same moment",
 "a job is looked for before the lock is taken, so two workers can claim the same one",
 [(STORE,"""	s.modMut.Lock()
	defer s.modMut.Unlock()

	var job *JobEntry

	err := s.db.Update(func(db libdb.Database) error {
		bucket := db.Bucket(bucketID)

		// Attempt to find relevant job, break when we have it + id
		err := bucket.ForEach(""","""	var job *JobEntry

	err := s.db.Update(func(db libdb.Database) error {
		bucket := db.Bucket(bucketID)

		// Attempt to find relevant job, break when we have it + id
		err := bucket.ForEach("""),(STORE,"""		// Serialise the new guy
		return bucket.PutObject(job.id, job)""","""		s.modMut.Lock()
		defer s.modMut.Unlock()

		// Serialise the new guy
		return bucket.PutObject(job.id, job)""")],
"""func TestDemo(t *testing.T) {
	for round := 0; round < 60; round++ {
		s, err := NewStore(t.TempDir())
		if err != nil {
			t.Fatal(err)
		}
		const jobs = 40
		for i := 0; i < jobs; i++ {
			if err := s.PushAsyncJob(NewDeltaJob("a", strconv.Itoa(i))); err != nil {
				t.Fatal(err)
			}
		}
		var mut sync.Mutex
		var wg sync.WaitGroup
		seen := map[string]int{}
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					j, err := s.ClaimAsyncJob()
					if err != nil {
						return
					}
					mut.Lock()
					seen[j.Params[1]]++
					mut.Unlock()
				}
			}()
		}
		wg.Wait()
		s.Close()
		for n, c := range seen {
			if c != 1 {
				t.Fatalf("job %s was claimed %d times", n, c)
			}
		}
	}
}""",pkg="jobs",helper="jobs_helper.go.txt",imports=("strconv","sync"))
seed("c33-stale-entry","C33","a package is taken over from the pool while another version of it is imported into the same repository",
 "what the repository lists is read before its lock is taken, so a concurrent import of another version is undone",
 [(REPO,"""func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) error {
	r.insertMut.Lock()
	defer r.insertMut.Unlock()

""","""func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) error {
"""),(REPO,"""	repoEntry := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
	// Already included
	if repoEntry == nil {
		return nil
	}

	// Construct root dirs
	if err := os.MkdirAll(targetDir, 00755); err != nil {
		return err
	}

	// Grab the pool reference for this package (Always copy)
	if err = pool.RefEntry""","""	repoEntry := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
	// Already included
	if repoEntry == nil {
		return nil
	}

	r.insertMut.Lock()
	defer r.insertMut.Unlock()

	// Construct root dirs
	if err := os.MkdirAll(targetDir, 00755); err != nil {
		return err
	}

	// Grab the pool reference for this package (Always copy)
	if err = pool.RefEntry""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	const n = 60
	d.ok(d.m.CreateRepo("a"))
	d.ok(d.m.CreateRepo("b"))
	ra, err := d.m.GetRepo("a")
	d.ok(err)
	rb, err := d.m.GetRepo("b")
	d.ok(err)
	var paths []string
	for i := 1; i <= 2*n; i++ {
		paths = append(paths, d.file(pkgID("foo", "1", i), "foo", "foo", "1", i))
	}
	for _, p := range paths[:n] {
		d.ok(ra.AddPackage(d.m.db, d.m.pool, p, false))
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 1; i <= n; i++ {
			rb.RefPackage(d.m.db, d.m.pool, pkgID("foo", "1", i))
		}
	}()
	go func() {
		defer wg.Done()
		for _, p := range paths[n:] {
			rb.AddPackage(d.m.db, d.m.pool, p, false)
		}
	}()
	wg.Wait()
	d.want("versions", len(d.entry("b", "foo").Available), 2*n)
}""",imports=("sync",))
seed("c18-write-error","C18","the disk write of a transaction fails",
 "a transaction whose write fails is reported as successful",
 [(DB,"""	return clone.db.Write(clone.batch, nil)""","""	clone.db.Write(clone.batch, nil)
	return nil""")],
"""func TestDemo(t *testing.T) {
	d, err := Open(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	b := d.Bucket([]byte("b"))
	d.Close()
	if b.Update(func(db Database) error { return db.PutObject([]byte("k"), "v") }) == nil {
		t.Fatal("written to a closed database")
	}
}""",pkg="libdb",helper="libdb_helper.go.txt")
seed("c22-octal","C22","a number argument of the command line has leading zeros",
 "the number of versions to keep is read as octal when it is written with a leading zero",
 [("src/ferryctl/cmd/trim_packages.go","""strconv.ParseInt(args[1], 10, 32)""","""strconv.ParseInt(args[1], 0, 32)""")],
"""func TestDemo(t *testing.T) {
	socketPath = filepath.Join(t.TempDir(), "sock")
	l, err := net.Listen("unix", socketPath)
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	got := make(chan string, 1)
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		got <- string(b)
	}))
	RootCmd.SetArgs([]string{"trim", "packages", "a", "010"})
	if err := RootCmd.Execute(); err != nil {
		t.Fatal(err)
	}
	if b := <-got; !strings.Contains(b, ":10}") {
		t.Fatal(b)
	}
}""",pkg="cmd",helper="cmd_helper.go.txt",imports=("path/filepath","net","net/http","io","strings"))
seed("c30-narrow","C30","a request keeps more than 127 versions",
 "a queued trim job with a larger number to keep fails when it is run",
 [("src/ferryd/jobs/trim_packages.go","""strconv.ParseInt(j.Params[1], 10, 32)""","""strconv.ParseInt(j.Params[1], 10, 8)""")],
"""func TestDemo(t *testing.T) {
	if _, err := NewJobHandler(NewTrimPackagesJob("a", 200)); err != nil {
		t.Fatal(err)
	}
}""",pkg="jobs",helper="jobs_helper.go.txt")
seed("c28-no-files","C28","a package without its list of files is in a repository and a delta job looks at it",
 "a package without files.xml crashes the daemon when a delta is built",
 [("src/libeopkg/package.go","""	files := p.FindFile("files.xml")
	if files == nil {
		return ErrEopkgCorrupted
	}
	fi, err""","""	files := p.FindFile("files.xml")
	fi, err""")],
"""func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "x.eopkg")
	f, err := os.Create(path)
	if err != nil {
		t.Fatal(err)
	}
	z := zip.NewWriter(f)
	z.Create("other")
	z.Close()
	f.Close()
	p, err := Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	if p.ReadFiles() == nil {
		t.Fatal("read")
	}
}""",pkg="libeopkg",helper="empty_libeopkg.go.txt",imports=("os","path/filepath","archive/zip"))
seed("c35-store-first","C35","the daemon is stopped while a job is running",
 "the job database is closed before the workers have stopped, so the outcome of a running job is lost or the daemon crashes",
 [("src/ferryd/server.go","""	s.jproc.Close()
	s.store.Close()
""","""	s.store.Close()
	s.jproc.Close()
""")],
"""func TestDemo(t *testing.T) {
	baseDir = t.TempDir()
	socketPath = filepath.Join(baseDir, "sock")
	s, err := NewServer()
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Bind(); err != nil {
		t.Fatal(err)
	}
	if err := s.manager.CreateRepo("a"); err != nil {
		t.Fatal(err)
	}
	// The job runs until this is written
	fifo := filepath.Join(baseDir, "x.eopkg")
	if err := syscall.Mkfifo(fifo, 0644); err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() {
		s.Serve()
		close(done)
	}()
	s.store.PushSequentialJob(jobs.NewBulkAddJob("a", []string{fifo}))
	var w *os.File
	for i := 0; i < 100 && w == nil; i++ {
		time.Sleep(100 * time.Millisecond)
		w, _ = os.OpenFile(fifo, os.O_WRONLY|syscall.O_NONBLOCK, 0)
	}
	if w == nil {
		t.Fatal("the job did not run")
	}
	go s.Close()
	time.Sleep(time.Second)
	w.Close()
	<-done
	st, err := jobs.NewStore(baseDir)
	if err != nil {
		t.Fatal(err)
	}
	defer st.Close()
	f, err := st.FailedJobs()
	if err != nil || len(f) != 1 {
		t.Fatal(len(f), err)
	}
}""",pkg="main",helper="main_helper.go.txt",imports=("os","path/filepath","time","syscall","github.com/getsolus/ferryd/src/ferryd/jobs"))
