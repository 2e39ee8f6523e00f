REPO="src/ferryd/core/repo.go"; POOL="src/ferryd/core/pool.go"; INDEX="src/ferryd/core/repo_index.go"; UTIL="src/ferryd/core/util.go"
seed("c01-delta-ref","C01","a delta that is already pooled because another repository lists it is added to a second repository",
 "the second reference of a pooled delta is not counted, so its file and record vanish while a repository still lists it",
 [(POOL,"""	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
		entry.RefCount++
		return entry, p.putEntry(db, entry)
	} else if err != libdb.ErrNotFound {
		return nil, err
	}

	// Validate these""","""	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
		return entry, nil
	} else if err != libdb.ErrNotFound {
		return nil, err
	}

	// Validate these""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	for _, r := range []string{"a", "b"} {
		d.ok(d.m.CreateRepo(r))
		d.add(r, "foo", "foo", 1, 2)
		d.delta(r, "foo", "foo", 1, 2)
	}
	d.want("references", d.refs(deltaID("foo", 1, 2)), 2)
	d.ok(d.m.RemoveSource("a", "foo", 2))
	d.there("pool/f/foo", deltaID("foo", 1, 2))
}""")
seed("c02-parents","C02","two sources that share their letter directory, and the last package of one of them is removed from a repository",
 "tidying the empty source directory wipes the whole letter directory with the files of other listed packages",
 [(UTIL,"""		if err = os.Remove(p); err != nil {
			return err
		}
	}
	return nil
}

// FileSha1sum""","""		if err = os.RemoveAll(letterDir); err != nil {
			return err
		}
		break
	}
	return nil
}

// FileSha1sum""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo", "foo", 1)
	d.add("a", "far", "far", 1)
	d.ok(d.m.RemoveSource("a", "foo", 1))
	d.there("repo/a/f/far", pkgID("far", "1", 1))
	d.there("pool/f/far", pkgID("far", "1", 1))
}""")
seed("c03-tip-after-removal","C03","the tip is removed while at least two older versions remain whose names do not sort like their releases",
 "after a removal the published version is the one whose file name sorts last instead of the one with the highest release",
 [(REPO,"""			newHighest = curRel
			newHighestID = id
		}
		remainAvailable""","""			newHighestID = id
		}
		remainAvailable""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo", "foo", 9, 10, 11)
	d.ok(d.m.RemoveSource("a", "foo", 11))
	d.want("published", d.entry("a", "foo").Published, pkgID("foo", "1", 10))
}""")
seed("c06-equal-release","C06","source and target publish the same release of a name as different packages",
 "a pull takes over a package of equal release and reports its name as changed",
 [(REPO,"""		if tipVer.Meta.GetRelease() > ourTip.Meta.GetRelease() {""","""		if entry.Published != localEntry.Published && tipVer.Meta.GetRelease() >= ourTip.Meta.GetRelease() {""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.ok(d.m.CreateRepo("b"))
	for r, v := range map[string]string{"a": "1", "b": "2"} {
		d.ok(d.m.AddPackages(r, []string{d.file(pkgID("foo", v, 5), "foo", "foo", v, 5)}, false))
	}
	names, err := d.m.PullRepo("a", "b")
	d.ok(err)
	d.want("changed", names, "[]")
	d.want("available", d.entry("b", "foo").Available, []string{pkgID("foo", "2", 5)})
}""")
seed("c08-stray-delta","C08","a delta leads to the removed package while an older version stays",
 "removing a package leaves the deltas that lead to it listed",
 [(REPO,"""		if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {""","""		if pkgDelta.Delta.FromID == pkgID || (pkgDelta.Delta.ToID == pkgID && entry.Published != pkgID) {""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo", "foo", 1, 2)
	d.delta("a", "foo", "foo", 1, 2)
	d.ok(d.m.RemoveSource("a", "foo", 2))
	d.want("deltas", len(d.entry("a", "foo").Deltas), 0)
}""")
seed("c09-carry-over","C09","a repository with two package names, each with several versions",
 "the candidates of one package name leak into the next one, so too many versions are removed",
 [(REPO,"""		var candidates []*libeopkg.MetaPackage

		for _, id := range entry.Available {
			poolEntry, err := pool.GetEntry(db, id)
			if err != nil {
				return err
			}
			candidates""","""		for _, id := range entry.Available {
			poolEntry, err := pool.GetEntry(db, id)
			if err != nil {
				return err
			}
			candidates"""),
  (REPO,"""	var removalIDs []string

	rootBucket := db.Bucket([]byte(DatabaseBucketRepo)).Bucket([]byte(r.ID)).Bucket([]byte(DatabaseBucketPackage))

	// Grab every package
	err := rootBucket.ForEach(func(k, v []byte) error {
		entry := RepoEntry{}
		if err := rootBucket.Decode(v, &entry); err != nil {
			return err
		}

		// micro""","""	var removalIDs []string
	var candidates []*libeopkg.MetaPackage

	rootBucket := db.Bucket([]byte(DatabaseBucketRepo)).Bucket([]byte(r.ID)).Bucket([]byte(DatabaseBucketPackage))

	// Grab every package
	err := rootBucket.ForEach(func(k, v []byte) error {
		candidates = candidates[:0]
		entry := RepoEntry{}
		if err := rootBucket.Decode(v, &entry); err != nil {
			return err
		}

		// micro"""),
  (REPO,"""		for i := maxKeep; i < len(candidates); i++ {
			id := candidates[i].GetID()""","""		for i := maxKeep; i < cap(candidates); i++ {
			if i >= len(candidates) {
				break
			}
			id := candidates[i].GetID()""")],
"""func TestDemo(t *testing.T) {
}""")
S.pop()
seed("c09-release-keep","C09","an older version has a file name that sorts after the newer ones and the number to keep is above one",
 "trimming sorts candidates by file name when two or more are kept, so it drops newer versions than it keeps",
 [(REPO,"""		sort.Sort(sort.Reverse(libeopkg.PackageSet(candidates)))
""","""		sort.Slice(candidates, func(i, j int) bool {
			if a, b := candidates[i], candidates[j]; len(a.GetVersion()) == len(b.GetVersion()) {
				return a.GetVersion() > b.GetVersion() || (a.GetVersion() == b.GetVersion() && a.GetRelease() > b.GetRelease())
			}
			return candidates[i].GetRelease() > candidates[j].GetRelease()
		})
""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	// A version may go back (an epoch change), its release never does
	for r, v := range []string{"7", "8", "1", "2"} {
		d.ok(d.m.AddPackages("a", []string{d.file(pkgID("foo", v, r+1), "foo", "foo", v, r+1)}, false))
	}
	d.ok(d.m.TrimPackages("a", 2))
	d.want("available", d.entry("a", "foo").Available, []string{pkgID("foo", "1", 3), pkgID("foo", "2", 4)})
}""")
seed("c12-stale-dist","C12","an index run, then the distribution file is taken away, then another index run by the same process",
 "the distribution read earlier is kept, so the index still carries it and still leaves out its obsolete packages",
 [(INDEX,"""	r.dist = nil

	dpath""","""	dpath""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo", "foo", 1)
	d.asset("a", "distribution.xml", "<PISI><SourceName>Solus</SourceName><Version>1</Version><Obsoletes><Package>foo</Package></Obsoletes></PISI>")
	d.ok(d.m.Index("a"))
	d.want("obsolete listed", strings.Contains(d.read("repo/a/eopkg-index.xml"), "<Name>foo</Name>"), false)
	d.ok(os.Remove(filepath.Join(d.base, "assets/a/distribution.xml")))
	d.ok(d.m.Index("a"))
	d.want("listed", strings.Contains(d.read("repo/a/eopkg-index.xml"), "<Name>foo</Name>"), true)
}""",imports=("os","path/filepath","strings"))
seed("c13-zst-leftover","C13","the checksum of the zstd index cannot be written",
 "the temporary zstd index is not cleaned up when a later step fails",
 [(INDEX,"""	mapping[indexPathZst] = indexPathZstFinal

	if errAbort = libeopkg.ZstdFile(indexPath, true); errAbort != nil {
		return errAbort
	}
""","""
	if errAbort = libeopkg.ZstdFile(indexPath, true); errAbort != nil {
		return errAbort
	}
"""),(INDEX,"""	for k, v := range mapping {
		if errAbort = os.Rename""","""	mapping[indexPathZst] = indexPathZstFinal

	for k, v := range mapping {
		if errAbort = os.Rename""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo", "foo", 1)
	d.ok(os.Mkdir(filepath.Join(d.base, "repo/a/eopkg-index.xml.zst.sha256sum.new"), 0755))
	d.refused(d.m.Index("a"), "an index run that cannot write a checksum")
	d.gone("repo/a/eopkg-index.xml.new.zst")
}""",imports=("os","path/filepath"))
seed("c14-list-first","C14","the process dies between listing a pulled package and linking its file",
 "a package taken over from the pool is listed before its file is linked and its reference counted",
 [(REPO,"""	// Grab the pool reference for this package (Always copy)
	if err = pool.RefEntry(db, pkgID); err != nil {
		return err
	}

	// Ensure the eopkg file is linked inside our own tree
	if err = LinkOrCopyFile(localPath, targetPath, false); err != nil {
		return err
	}

	return r.putEntry(db, repoEntry)""","""	if err = r.putEntry(db, repoEntry); err != nil {
		return err
	}

	// Grab the pool reference for this package (Always copy)
	if err = pool.RefEntry(db, pkgID); err != nil {
		return err
	}

	// Ensure the eopkg file is linked inside our own tree
	return LinkOrCopyFile(localPath, targetPath, false)""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.ok(d.m.CreateRepo("b"))
	d.add("a", "foo", "foo", 1)
	// Stand-in for dying at the link: a directory in the way makes it fail there
	blocker := filepath.Join(d.base, "repo/b/f/foo", pkgID("foo", "1", 1))
	d.ok(os.MkdirAll(filepath.Join(blocker, "x"), 0755))
	d.m.PullRepo("a", "b")
	d.reopen()
	d.want("listed without its file", d.entry("b", "foo").Available, "[]")
}""",imports=("os","path/filepath"))
seed("c10-dbginfo-tip","C10","an obsolete name whose -dbginfo companion has several versions",
 "only the published version of a companion package is removed when its base name is obsolete",
 [(REPO,"""			nom := poolEntry.Meta.Name
			if strings.HasSuffix(nom, "-dbginfo") {""","""			nom := poolEntry.Meta.Name
			if id == entry.Published && strings.HasSuffix(nom, "-dbginfo") {""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.add("a", "foo-dbginfo", "foo", 1, 2)
	d.asset("a", "distribution.xml", "<PISI><SourceName>Solus</SourceName><Version>1</Version><Obsoletes><Package>foo</Package></Obsoletes></PISI>")
	d.ok(d.m.TrimObsolete("a"))
	d.want("available", d.entry("a", "foo-dbginfo").Available, "[]")
}""")
seed("c05-clone-deltas","C05","a full clone of a repository with two names of which the later one has deltas",
 "a full clone takes over only the deltas of the last name",
 [(REPO,"""			deltaIDs = append(deltaIDs, entry.Deltas...)""","""			if len(entry.Available) > 1 {
				deltaIDs = entry.Deltas
			}""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	for _, n := range []string{"bar", "foo"} {
		d.add("a", n, n, 1, 2)
	}
	d.delta("a", "bar", "bar", 1, 2)
	d.ok(d.m.CloneRepo("a", "b", true))
	d.want("deltas", d.entry("b", "bar").Deltas, []string{deltaID("bar", 1, 2)})
}""")
