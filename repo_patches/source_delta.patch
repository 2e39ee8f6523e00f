From b85110359abee876e9208ceaba97eb8a7f6ed127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 01/41] fix: keep characters split over several writes intact
 in EscapedWriter

---
 src/ferryd/core/escape.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ferryd/core/escape.go b/src/ferryd/core/escape.go
index c16991f..86ea9b0 100644
--- a/src/ferryd/core/escape.go
+++ b/src/ferryd/core/escape.go
@@ -10,6 +10,8 @@ import (
 // EscapedWriter is a writer that escapes non-ASCII sequences written to it using HTML encoding.
 type EscapedWriter struct {
 	w io.Writer
+	// pending holds the start of a character whose remaining bytes were not written yet.
+	pending []byte
 }
 
 // NewEscapedWriter returns an initialised EscapedWriter.
@@ -18,11 +20,23 @@ func NewEscapedWriter(w io.Writer) *EscapedWriter {
 }
 
 // Write implements [io.Writer].
+//
+// A character may be split over several writes. Its bytes are held back until it is complete or known to be invalid.
 func (e *EscapedWriter) Write(b []byte) (n int, err error) {
 	n = len(b)
+	if len(e.pending) > 0 {
+		b = append(e.pending, b...)
+		e.pending = nil
+	}
+
 	escaped := make([]byte, 0, len(b))
 
 	for len(b) > 0 {
+		if !utf8.FullRune(b) {
+			e.pending = append([]byte(nil), b...)
+			break
+		}
+
 		r, size := utf8.DecodeRune(b)
 		escaped = e.appendRune(escaped, r)
 		b = b[size:]
-- 
2.43.0


From 5b73098014be85dbcfad201adc51b7a83ead5c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 02/41] fix: keep the deltas of an entry when a package version
 is added to it

---
 src/ferryd/core/repo.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index c0344f5..f9158f7 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -632,6 +632,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	if entry != nil {
 		repoEntry.Available = entry.Available
 		repoEntry.Published = entry.Published
+		repoEntry.Deltas = entry.Deltas
 
 		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)
 		if err == nil {
-- 
2.43.0


From 0673901a93f093ff9f1c75aad93f0a7e9a8e20ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 03/41] fix: index the target of a source copy unless asked to
 skip indexing

---
 src/ferryd/core/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index 71e97de..f66d02d 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -123,10 +123,10 @@ func (m *Manager) CopySource(repoID, target, sourceID string, release int, skipI
 	}
 
 	if skipIndex {
-		return m.Index(target)
-	} else {
 		return nil
 	}
+
+	return m.Index(target)
 }
 
 // TrimObsolete will ask the repo to remove obsolete packages
-- 
2.43.0


From c5f7b3378e23ae7fdc71862c1ab776df1008a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 04/41] fix: trim every version of every obsolete package, not
 just one -dbginfo version

---
 src/ferryd/core/repo.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index f9158f7..b1a766b 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -1180,16 +1180,15 @@ func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
 
 			// Check if its obsolete, if its automatically obsolete through our
 			// dbginfo trick, warn in the console
-			if r.dist != nil && r.dist.IsObsolete(nom) {
+			if r.dist.IsObsolete(nom) || r.dist.IsObsolete(entry.Name) {
 				if nom != entry.Name {
 					// Scream really loudly, but remove it because its "just" dbginfo.
 					log.WithFields(log.Fields{
 						"repo": r.ID,
 						"name": poolEntry.Meta.Name,
 					}).Error("Abandoned obsolete package. Removing!")
-					removalIDs = append(removalIDs, id)
 				}
-				return nil
+				removalIDs = append(removalIDs, id)
 			}
 		}
 
-- 
2.43.0


From 6e3a26f235820093d7b1ace4ceb691fc04081a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 05/41] fix: let indexing succeed when compressed leftovers of
 an interrupted run exist

---
 src/libeopkg/util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libeopkg/util.go b/src/libeopkg/util.go
index b4d7ec5..c4d0f3f 100644
--- a/src/libeopkg/util.go
+++ b/src/libeopkg/util.go
@@ -56,6 +56,7 @@ func IsDeltaPossible(oldPackage, newPackage *MetaPackage) bool {
 func XzFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"xz",
+		"-f", // Replace leftovers of an interrupted run
 		"-6",
 		"-T", "8",
 		inputPath,
@@ -91,6 +92,7 @@ func UnxzFile(inputPath string, keepOriginal bool) error {
 func ZstdFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"zstd",
+		"-f", // Replace leftovers of an interrupted run
 		"-3",
 		"-T8",
 		inputPath,
-- 
2.43.0


From 8900551b4e49e588da15bf80408f10f037ea536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 06/41] fix: never truncate a file that is already linked to
 its own copy target

---
 src/ferryd/core/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index b70fa06..fc09d74 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -38,6 +38,10 @@ func CopyFile(source, dest string) error {
 	// Stat the source first
 	st, err = os.Stat(source)
 	if err != nil {
+		return err
+	}
+	// An interrupted run may have linked them already, don't truncate the source
+	if dstSt, err := os.Stat(dest); err == nil && os.SameFile(st, dstSt) {
 		return nil
 	}
 	if src, err = os.Open(source); err != nil {
-- 
2.43.0


From cbfa9b2b5afaa5f182cb7b62e69ed5f3a1934635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 07/41] fix: delist a package before removing its files

---
 src/ferryd/core/repo.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index b1a766b..1258135 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -512,13 +512,8 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 		return err
 	}
 
-	// Try to remove it from disk first
-	if err := r.removePackageInternal(db, pool, pkgID); err != nil {
-		return err
-	}
-
-	// Deltas remaining after removals
-	var remainDeltas []string
+	// Deltas remaining after removals, and those that go away
+	var remainDeltas, strayDeltas []string
 
 	// Check out all the deltas
 	for _, deltaID := range entry.Deltas {
@@ -529,9 +524,7 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 
 		// We found a delta that is referencing us, we must garbage collect it now
 		if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {
-			if err := r.removeDeltaInternal(db, pool, pkgDelta.Name); err != nil {
-				return err
-			}
+			strayDeltas = append(strayDeltas, pkgDelta.Name)
 		} else {
 			remainDeltas = append(remainDeltas, pkgDelta.Name)
 		}
@@ -569,11 +562,25 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 
 	// Is this package set now "empty"? Then remove it from our indexes
 	if len(entry.Available) < 1 {
-		return rootBucket.DeleteObject([]byte(entry.Name))
+		err = rootBucket.DeleteObject([]byte(entry.Name))
+	} else {
+		// Stuff it back into the DB with the modified bits in place.
+		err = r.putEntry(db, entry)
+	}
+	if err != nil {
+		return err
 	}
 
-	// Stuff it back into the DB with the modified bits in place.
-	return r.putEntry(db, entry)
+	// Only remove the files of what we no longer list, we might be interrupted
+	if err := r.removePackageInternal(db, pool, pkgID); err != nil {
+		return err
+	}
+	for _, deltaID := range strayDeltas {
+		if err := r.removeDeltaInternal(db, pool, deltaID); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // RefPackage will dupe a package from the pool into our own storage
-- 
2.43.0


From 12be4be8cecedc31bcf5d73dd956b103aa301673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 08/41] fix: make an interrupted repository deletion repeatable
 and never leave listed packages without files

---
 src/ferryd/core/repo.go | 67 +++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 36 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 1258135..5f6820c 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -247,48 +247,42 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 	delete(r.repos, id)
 
-	// Let's iterate over every one of our packages here and start up an unref
-	// cycle
-	err = db.Update(func(db libdb.Database) error {
-		repoBucket := db.Bucket([]byte(DatabaseBucketRepo))
-		rootBucket := repoBucket.Bucket([]byte(repo.ID)).Bucket([]byte(DatabaseBucketPackage))
-
-		err := rootBucket.ForEach(func(k, v []byte) error {
-			// Grab each repo entry
-			entry := RepoEntry{}
-			if err := rootBucket.Decode(v, &entry); err != nil {
-				return err
-			}
-
-			// First up, find all the packages to unref
-			for _, id := range entry.Available {
-				if err := repo.removePackageInternal(db, pool, id); err != nil {
-					return err
-				}
-			}
-
-			// Next up, find all the deltas to unref
-			for _, id := range entry.Deltas {
-				if err := repo.removeDeltaInternal(db, pool, id); err != nil {
-					return err
-				}
-			}
-
-			// Remove all IDs for this package, now we must remove this entry
-			// Note this isn't applied within the foreach.
-			return rootBucket.DeleteObject([]byte(entry.Name))
-		})
-		if err != nil {
+	repoBucket := db.Bucket([]byte(DatabaseBucketRepo))
+	rootBucket := repoBucket.Bucket([]byte(repo.ID)).Bucket([]byte(DatabaseBucketPackage))
+
+	// Let's iterate over every one of our packages here and find everything
+	// that we need to unref
+	var entries []*RepoEntry
+	err = rootBucket.ForEach(func(k, v []byte) error {
+		entry := &RepoEntry{}
+		if err := rootBucket.Decode(v, entry); err != nil {
 			return err
 		}
-		// Now remove the repository object itself
-		return repoBucket.DeleteObject([]byte(repo.ID))
+		entries = append(entries, entry)
+		return nil
 	})
-
 	if err != nil {
 		return err
 	}
 
+	// We might be interrupted, so only remove the files of what we no longer
+	// list, and only forget the repository itself once everything is gone.
+	for _, entry := range entries {
+		if err = rootBucket.DeleteObject([]byte(entry.Name)); err != nil {
+			return err
+		}
+		for _, id := range entry.Available {
+			if err = repo.removePackageInternal(db, pool, id); err != nil {
+				return err
+			}
+		}
+		for _, id := range entry.Deltas {
+			if err = repo.removeDeltaInternal(db, pool, id); err != nil {
+				return err
+			}
+		}
+	}
+
 	deletionPaths := []string{
 		repo.path,
 		repo.assetPath,
@@ -311,7 +305,8 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		}
 	}
 
-	return nil
+	// Now remove the repository object itself
+	return repoBucket.DeleteObject([]byte(repo.ID))
 }
 
 // GetEntry will return the package entry for the given ID
-- 
2.43.0


From aa44af38756dc4d9be6371e97635d3cbc0870f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 09/41] fix: limit bucket iteration and sequences to the keys
 of the bucket itself

---
 src/libdb/leveldb.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 4dee577..de19788 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -56,7 +56,7 @@ func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	handle.db = ldb
 	handle.prefix = []byte("|rootBucket|")
 	handle.keyPrefix = []byte("|rootBucket|-")
-	handle.prefixBytes = util.BytesPrefix(handle.prefix)
+	handle.prefixBytes = util.BytesPrefix(handle.keyPrefix)
 	handle.seqLock = &sync.Mutex{}
 	handle.initClosable()
 	return handle, nil
@@ -153,11 +153,12 @@ func (l *levelDbHandle) Bucket(id []byte) Database {
 	} else {
 		newID = []byte(fmt.Sprintf("%s-%s", string(bucketPrefix), id))
 	}
+	keyPrefix := []byte(fmt.Sprintf("%s-", string(newID)))
 	ret := &levelDbHandle{
 		db:          l.db,
 		prefix:      newID,
-		keyPrefix:   []byte(fmt.Sprintf("%s-", string(newID))),
-		prefixBytes: util.BytesPrefix(newID),
+		keyPrefix:   keyPrefix,
+		prefixBytes: util.BytesPrefix(keyPrefix),
 		batch:       l.batch,
 		seqLock:     l.seqLock,
 	}
-- 
2.43.0


From 49d1c731c42e43af77ed6fae5f703d52a18b3d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 10/41] fix: accept the delta jobs that are queued by DeltaRepo
 and PullRepo

---
 src/ferryd/jobs/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/jobs/main.go b/src/ferryd/jobs/main.go
index 6f36580..b74a466 100644
--- a/src/ferryd/jobs/main.go
+++ b/src/ferryd/jobs/main.go
@@ -146,6 +146,10 @@ func NewJobHandler(j *JobEntry) (JobHandler, error) {
 		return NewCreateRepoJobHandler(j)
 	case DeleteRepo:
 		return NewDeleteRepoJobHandler(j)
+	case Delta:
+		return NewDeltaJobHandler(j, false)
+	case DeltaIndex:
+		return NewDeltaJobHandler(j, true)
 	case DeltaRepo:
 		return NewDeltaRepoJobHandler(j)
 	case IndexRepo:
-- 
2.43.0


From ac47ad3b8b6b5f7a1ddbd42771776123b096a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 11/41] fix: show status when a queued job has invalid
 parameters

---
 src/ferryd/jobs/main.go   |  5 +++++
 src/ferryd/jobs/store.go  | 12 ++++++------
 src/ferryd/jobs/worker.go |  1 +
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ferryd/jobs/main.go b/src/ferryd/jobs/main.go
index b74a466..bd32b00 100644
--- a/src/ferryd/jobs/main.go
+++ b/src/ferryd/jobs/main.go
@@ -168,3 +168,8 @@ func NewJobHandler(j *JobEntry) (JobHandler, error) {
 		return nil, fmt.Errorf("unknown job type '%s'", j.Type)
 	}
 }
+
+// describeInvalidJob describes a job for which there is no handler
+func describeInvalidJob(j *JobEntry) string {
+	return fmt.Sprintf("Invalid job of type '%s'", j.Type)
+}
diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 292070b..fd63f70 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -358,15 +358,15 @@ func (s *JobStore) cloneCurrentJobs(ret *[]*libferry.Job, bucketID []byte) error
 			}
 
 			// Now stuff the job into the ret
-			hnd, err := NewJobHandler(j)
-			if err != nil {
-				return err
-			}
-
 			r := &libferry.Job{
-				Description: hnd.Describe(),
+				Description: describeInvalidJob(j),
 				Timing:      j.Timing,
 			}
+			// A job with invalid parameters fails when it is run, it mustn't
+			// hide all the others until then
+			if hnd, err := NewJobHandler(j); err == nil {
+				r.Description = hnd.Describe()
+			}
 			*ret = append(*ret, r)
 
 			return nil
diff --git a/src/ferryd/jobs/worker.go b/src/ferryd/jobs/worker.go
index 5226b33..12a05f0 100644
--- a/src/ferryd/jobs/worker.go
+++ b/src/ferryd/jobs/worker.go
@@ -182,6 +182,7 @@ func (w *Worker) processJob(job *JobEntry) {
 
 	if err != nil {
 		fields["error"] = err
+		job.description = describeInvalidJob(job)
 		job.failure = err
 		log.WithFields(fields).Error("No known job handler, cannot continue with job")
 		return
-- 
2.43.0


From e77000b24a4d2056d0843f70397834b073ed1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 12/41] fix: refuse packages whose source name is missing or
 not a plain directory name

---
 src/libeopkg/metadata.go | 6 ++++++
 src/libeopkg/package.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 0ee0ef4..39d9c67 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -175,6 +175,12 @@ type Metadata struct {
 	Package MetaPackage `xml:"Package"` // Meta on the package itself
 }
 
+// hasValidSource determines if the source name can be used for the path
+// component, i.e. if it is the plain name of a directory.
+func (m *MetaPackage) hasValidSource() bool {
+	return m.Source.Name != "" && m.Source.Name[0] != '.' && !strings.Contains(m.Source.Name, "/")
+}
+
 // GetPathComponent will get the source part of the string which is used
 // in all subdirectories of the repository.
 //
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index e6aa1ab..51cce1a 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -110,6 +110,9 @@ func (p *Package) ReadMetadata() error {
 	if err = dec.Decode(metadata); err != nil {
 		return err
 	}
+	if !metadata.Package.hasValidSource() {
+		return ErrEopkgCorrupted
+	}
 	p.Meta = metadata
 	// Clean up extra junk
 	for i := range p.Meta.Package.Summary {
-- 
2.43.0


From bde74880129263af20f36d966568a9f401fb0121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 13/41] fix: accept metadata, components and groups without
 texts instead of crashing

---
 src/libeopkg/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopkg/main.go b/src/libeopkg/main.go
index 4cf8ee0..acd51bb 100644
--- a/src/libeopkg/main.go
+++ b/src/libeopkg/main.go
@@ -47,7 +47,7 @@ type LocalisedField struct {
 // FixMissingLocalLanguage should be used on a set of LocalisedField to restore
 // the missing "en" that is required in the very first field set.
 func FixMissingLocalLanguage(fields *[]LocalisedField) {
-	if fields == nil {
+	if fields == nil || len(*fields) < 1 {
 		return
 	}
 	field := &(*fields)[0]
-- 
2.43.0


From af9e6c7c2421a59de4ddf7356efa515d2c71e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 14/41] fix: refuse packages without history instead of
 crashing

---
 src/libeopkg/package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index 51cce1a..1a280f6 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -113,6 +113,10 @@ func (p *Package) ReadMetadata() error {
 	if !metadata.Package.hasValidSource() {
 		return ErrEopkgCorrupted
 	}
+	// The release and version are taken from the history
+	if len(metadata.Package.History) < 1 {
+		return ErrEopkgCorrupted
+	}
 	p.Meta = metadata
 	// Clean up extra junk
 	for i := range p.Meta.Package.Summary {
-- 
2.43.0


From 7ac1813788f4a7779b08e57a4b884e5db8b1d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 15/41] fix: refuse repository names that are not plain
 directory names

---
 src/ferryd/core/repo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 5f6820c..7f5310a 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -207,6 +207,11 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
+	// A repository must have its very own directory
+	if id == "." || id == ".." || id != filepath.Base(id) {
+		return nil, fmt.Errorf("The specified repository name '%s' is invalid", id)
+	}
+
 	// Make sure someone isn't intentionally fucking with us
 	rbase := filepath.Join(r.repoBase, id)
 	if PathExists(rbase) {
-- 
2.43.0


From a3e75fac3dd09496fd336fb52a169b12e589e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 16/41] fix: refuse manifests that list files outside of the
 upload directory

---
 src/ferryd/core/transit_manifest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 3088258..c9d9e85 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -152,6 +152,11 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 		if !strings.HasSuffix(f.Path, ".eopkg") {
 			return nil, ErrIllegalUpload
 		}
+
+		// Only accept files that were uploaded along with the manifest
+		if strings.HasPrefix(filepath.Clean(f.Path), "../") {
+			return nil, ErrIllegalUpload
+		}
 	}
 
 	return ret, nil
-- 
2.43.0


From 124b07409de807130298be9b258cf5c357b94922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 17/41] fix: compute the checksum of empty files

---
 src/ferryd/core/mmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/core/mmap.go b/src/ferryd/core/mmap.go
index 179a1d7..390c60b 100644
--- a/src/ferryd/core/mmap.go
+++ b/src/ferryd/core/mmap.go
@@ -46,6 +46,10 @@ func MapFile(path string) (*MmapFile, error) {
 		return nil, err
 	}
 	ret.len = st.Size()
+	// An empty file cannot be mapped, but has no data either
+	if ret.len == 0 {
+		return ret, nil
+	}
 	ret.Data, err = syscall.Mmap(int(ret.f.Fd()), 0, int(ret.len), syscall.PROT_READ, syscall.MAP_PRIVATE)
 	if err != nil {
 		ret.f.Close()
-- 
2.43.0


From 98c13195ab904bd79c5108870d42544dce386119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 18/41] fix: refuse a different package under the ID of a
 pooled one

---
 src/ferryd/core/pool.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index d0204ae..62020fb 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -187,6 +187,14 @@ func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *Delta
 func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copyDisk bool, delta *DeltaInformation) (*PoolEntry, error) {
 	// Check if this is just a simple case of bumping the refcount
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
+		// Never confuse it with another file that merely has the same name
+		sha, err := FileSha1sum(pkg.Path)
+		if err != nil {
+			return nil, err
+		}
+		if sha != entry.Meta.PackageHash {
+			return nil, fmt.Errorf("a different package with the ID '%s' is in the pool already", pkg.ID)
+		}
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
 	}
-- 
2.43.0


From 8e840d928a47ad72260f31c3e4a7aff082c6ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 19/41] fix: let the kernel lock decide who owns the lock file

A recorded process ID may belong to an unrelated process by now, a longer
leftover ID was only partly overwritten, a held lock was not reported as such,
and a file removed by its last owner could be locked by two daemons.
---
 src/ferryd/lockfile.go | 91 ++++++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 34 deletions(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index ec7746a..332c1d2 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strconv"
 	"sync"
 	"syscall"
 
@@ -92,49 +93,64 @@ func (l *LockFile) GetOwnerProcess() string {
 }
 
 // Lock will attempt to lock the file, or return an error if this fails
+//
+// The kernel lock alone decides who owns the file: a recorded PID may have been
+// reused by an unrelated process since its owner died.
 func (l *LockFile) Lock() error {
-	pid, err := l.readPID()
-
-	// Bail now.
-	if err != ErrDeadLockFile && err != ErrOwnedLockFile && err != nil {
-		return err
-	}
-
-	// Not gonna test our *own* PID
-	if pid > 0 && pid != l.ourPID {
-		// Process is still active
-		// Unix this always works
-		p, _ := os.FindProcess(pid)
-		if err2 := p.Signal(syscall.Signal(0)); err2 == nil {
-			if p.Pid != l.ourPID {
-				l.owningPID = p.Pid
-				return ErrOwnedLockFile
+	if err := l.acquire(); err != nil {
+		if err == ErrOwnedLockFile {
+			if pid, e := l.readPID(); e == nil {
+				l.owningPID = pid
 			}
 		}
+		return err
 	}
 
-	l.conlock.Lock()
+	// Write the PID now we have an exclusive lock on it
+	return l.writePID()
+}
 
-	// Finally lock it.
-	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
-		l.conlock.Unlock()
-		return err
-	}
+// acquire takes the kernel lock on the file which is found at our path
+func (l *LockFile) acquire() error {
+	l.conlock.Lock()
+	defer l.conlock.Unlock()
 
-	l.owner = true
+	for {
+		if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
+			if err == syscall.EWOULDBLOCK {
+				return ErrOwnedLockFile
+			}
+			return err
+		}
 
-	l.conlock.Unlock()
+		ours, err := l.fd.Stat()
+		if err != nil {
+			return err
+		}
+		current, err := os.Stat(l.path)
+		if err == nil && os.SameFile(ours, current) {
+			l.owner = true
+			return nil
+		}
+		if err != nil && !os.IsNotExist(err) {
+			return err
+		}
 
-	// Write the PID now we have an exclusive lock on it
-	if err := l.writePID(); err != nil {
-		return err
+		// The previous owner removed the file after we opened it, so locking
+		// it would keep nobody out. Try again with the current one.
+		w, err := os.OpenFile(l.path, os.O_RDWR|os.O_CREATE, 00644)
+		if err != nil {
+			return err
+		}
+		l.fd.Close()
+		l.fd = w
 	}
-
-	return nil
 }
 
 // Unlock will attempt to unlock the file, or return an error if this fails
 func (l *LockFile) Unlock() error {
+	l.conlock.Lock()
+	defer l.conlock.Unlock()
 	if l.fd == nil || !l.owner {
 		return errors.New("cannot unlock that which we don't own")
 	}
@@ -142,6 +158,7 @@ func (l *LockFile) Unlock() error {
 	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_UN); err != nil {
 		return err
 	}
+	l.owner = false
 	return nil
 }
 
@@ -177,7 +194,11 @@ func (l *LockFile) writePID() error {
 	}
 	l.conlock.Lock()
 	defer l.conlock.Unlock()
-	if _, err := fmt.Fprintf(l.fd, "%d", l.ourPID); err != nil {
+	// Leave nothing behind from the previous owner
+	if err := l.fd.Truncate(0); err != nil {
+		return err
+	}
+	if _, err := l.fd.WriteAt([]byte(strconv.Itoa(l.ourPID)), 0); err != nil {
 		return err
 	}
 	return l.fd.Sync()
@@ -191,9 +212,11 @@ func (l *LockFile) Clean() error {
 		return nil
 	}
 
+	// Remove it while it's still locked, or we might remove the file of the
+	// next owner.
+	err := os.Remove(l.path)
 	l.fd.Close()
-	if l.owner {
-		return os.Remove(l.path)
-	}
-	return nil
+	l.fd = nil
+	l.owner = false
+	return err
 }
-- 
2.43.0


From 039a532a7ea862415b3d7f2cb4a28bd87281a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 20/41] fix: release the lock file only once the daemon has
 stopped

---
 src/ferryd/server.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 1fecf22..4efd9c1 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -231,11 +231,6 @@ func (s *Server) Close() {
 	if !s.running {
 		return
 	}
-	if s.lockFile != nil {
-		s.lockFile.Unlock()
-		s.lockFile.Clean()
-		s.lockFile = nil
-	}
 	s.StopWatching()
 	s.jproc.Close()
 	s.store.Close()
@@ -247,4 +242,10 @@ func (s *Server) Close() {
 	if !systemdEnabled {
 		os.Remove(s.socketPath)
 	}
+
+	// Only now can another ferryd safely start on this directory
+	if s.lockFile != nil {
+		s.lockFile.Clean()
+		s.lockFile = nil
+	}
 }
-- 
2.43.0


From caad9712a1a6c380b6b02c599ca841e2e638ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 21/41] fix: send requests for oddly named repositories to that
 repository

A name with special characters ended up as another repository's name: it was
put into the URL as it is, and the router redirected odd paths to a similar one.
---
 src/ferryd/server.go |  4 ++++
 src/libferry/main.go | 27 ++++++++++++++-------------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 4efd9c1..9e6181c 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -64,6 +64,10 @@ type Server struct {
 // NewServer will return a newly initialised Server which is currently unbound
 func NewServer() (*Server, error) {
 	router := httprouter.New()
+	// Names are part of the path, and redirecting the request for an odd name
+	// to a "fixed" path would have it act on another repository.
+	router.RedirectFixedPath = false
+	router.RedirectTrailingSlash = false
 	s := &Server{
 		srv: &http.Server{
 			Handler: router,
diff --git a/src/libferry/main.go b/src/libferry/main.go
index b06a13d..75e6565 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -24,6 +24,7 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"net/url"
 	"time"
 )
 
@@ -143,25 +144,25 @@ func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}
 
 // CreateRepo will attempt to create a repository in the daemon
 func (c *Client) CreateRepo(id string) error {
-	uri := c.formURI("/api/v1/create/repo/" + id)
+	uri := c.formURI("api/v1/create/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeleteRepo will attempt to delete a remote repository
 func (c *Client) DeleteRepo(id string) error {
-	uri := c.formURI("/api/v1/remove/repo/" + id)
+	uri := c.formURI("api/v1/remove/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeltaRepo will attempt to reproduce deltas in the given repo
 func (c *Client) DeltaRepo(id string) error {
-	uri := c.formURI("/api/v1/delta/repo/" + id)
+	uri := c.formURI("api/v1/delta/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // IndexRepo will attempt to index a repository in the daemon
 func (c *Client) IndexRepo(id string) error {
-	uri := c.formURI("/api/v1/index/repo/" + id)
+	uri := c.formURI("api/v1/index/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -171,7 +172,7 @@ func (c *Client) ImportPackages(repoID string, pkgs []string) error {
 	iq := ImportRequest{
 		Path: pkgs,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/import/"+repoID), &iq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/import/"+url.PathEscape(repoID)), &iq, &Response{})
 }
 
 // CloneRepo will ask the backend to clone an existing repository into a new repository
@@ -180,7 +181,7 @@ func (c *Client) CloneRepo(repoID, newClone string, copyAll bool) error {
 		CloneName: newClone,
 		CopyAll:   copyAll,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/clone/"+repoID), &cq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/clone/"+url.PathEscape(repoID)), &cq, &Response{})
 }
 
 // PullRepo will ask the backend to pull from target into repoID
@@ -188,7 +189,7 @@ func (c *Client) PullRepo(sourceID, targetID string) error {
 	pq := PullRepoRequest{
 		Source: sourceID,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/pull/"+targetID), &pq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/pull/"+url.PathEscape(targetID)), &pq, &Response{})
 }
 
 // RemoveSource will ask the backend to remove packages by source name
@@ -197,7 +198,7 @@ func (c *Client) RemoveSource(repoID, sourceID string, relno int) error {
 		Source:  sourceID,
 		Release: relno,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+repoID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+url.PathEscape(repoID)), &sq, &Response{})
 }
 
 // CopySource will ask the backend to copy packages by source name
@@ -208,7 +209,7 @@ func (c *Client) CopySource(fromID, targetID, sourceID string, relno int, skipIn
 		Release:   relno,
 		SkipIndex: skipIndex,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+fromID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+url.PathEscape(fromID)), &sq, &Response{})
 }
 
 // TrimPackages will request that packages in the repo are trimmed to maxKeep
@@ -216,12 +217,12 @@ func (c *Client) TrimPackages(repoID string, maxKeep int) error {
 	tq := TrimPackagesRequest{
 		MaxKeep: maxKeep,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+repoID), &tq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+url.PathEscape(repoID)), &tq, &Response{})
 }
 
 // TrimObsolete will request that all packages marked obsolete are removed
 func (c *Client) TrimObsolete(repoID string) error {
-	uri := c.formURI("/api/v1/trim/obsoletes/" + repoID)
+	uri := c.formURI("api/v1/trim/obsoletes/" + url.PathEscape(repoID))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -241,12 +242,12 @@ func (c *Client) GetStatus() (*StatusRequest, error) {
 
 // ResetFailed asks the daemon to reset failed jobs
 func (c *Client) ResetFailed() error {
-	uri := c.formURI("/api/v1/reset/failed")
+	uri := c.formURI("api/v1/reset/failed")
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // ResetCompleted asks the daemon to reset completed jobs
 func (c *Client) ResetCompleted() error {
-	uri := c.formURI("/api/v1/reset/completed")
+	uri := c.formURI("api/v1/reset/completed")
 	return c.getBasicResponse(uri, &Response{})
 }
-- 
2.43.0


From 6312779fc0d23db1789ab1ceec15bf47c7867354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 22/41] fix: build a delta again after an interrupted attempt

---
 src/libeopkg/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libeopkg/util.go b/src/libeopkg/util.go
index c4d0f3f..3e31ec9 100644
--- a/src/libeopkg/util.go
+++ b/src/libeopkg/util.go
@@ -74,6 +74,7 @@ func XzFile(inputPath string, keepOriginal bool) error {
 func UnxzFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"unxz",
+		"-f", // Replace leftovers of an interrupted run
 		"-T", "8",
 		inputPath,
 	}
-- 
2.43.0


From 7e97007531aa82b3474578f5dc9762526f7226c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 23/41] fix: reindex when a delta job reused existing deltas

---
 src/ferryd/jobs/delta.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/jobs/delta.go b/src/ferryd/jobs/delta.go
index bbfc8ad..66e296e 100644
--- a/src/ferryd/jobs/delta.go
+++ b/src/ferryd/jobs/delta.go
@@ -132,6 +132,7 @@ func (j *DeltaJobHandler) executeInternal(manager *core.Manager) error {
 				return err
 			}
 			log.WithFields(fields).Info("Reused existing delta")
+			j.nDeltas++ // It's new to this repository
 			continue
 		}
 
-- 
2.43.0


From 6f994ba0c27b15a2d5c76cadd51bbbfb2440de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 24/41] fix: lock the repository cache against concurrent jobs
 and requests

---
 src/ferryd/core/repo.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 7f5310a..b26aa1d 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -175,6 +175,14 @@ func (r *RepositoryManager) GetRepos(db libdb.Database) ([]*Repository, error) {
 // GetRepo will attempt to get the named repo if it exists, otherwise
 // return an error. This is a transactional helper to make the API simpler
 func (r *RepositoryManager) GetRepo(db libdb.Database, id string) (*Repository, error) {
+	r.repoLock.Lock()
+	defer r.repoLock.Unlock()
+
+	return r.getRepo(db, id)
+}
+
+// getRepo implements GetRepo for callers that hold the lock already
+func (r *RepositoryManager) getRepo(db libdb.Database, id string) (*Repository, error) {
 	// Cache each repository.
 	if repo, ok := r.repos[id]; ok {
 		return repo, nil
@@ -203,7 +211,7 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
-	if _, err := r.GetRepo(db, id); err == nil {
+	if _, err := r.getRepo(db, id); err == nil {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
@@ -245,7 +253,7 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
-	repo, err := r.GetRepo(db, id)
+	repo, err := r.getRepo(db, id)
 	if err != nil {
 		return fmt.Errorf("The specified repository '%s' does not exist", id)
 	}
-- 
2.43.0


From 537e743d8f7ab1dfb0ed1abfb46eae0fad99f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 25/41] fix: do not lose references that repositories take at
 the same time

---
 src/ferryd/core/pool.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index 62020fb..a13afe3 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sync"
 
 	log "github.com/sirupsen/logrus"
 
@@ -77,6 +78,8 @@ type PoolEntry struct {
 // and represents the real backing store for referenced eopkg files.
 type Pool struct {
 	poolDir string // Storage area
+
+	refMut sync.Mutex // Repositories share our entries, so count one reference at a time
 }
 
 // Init will create our initial working paths and DB bucket
@@ -159,6 +162,9 @@ func (p *Pool) GetPackagePoolPath(pkg *libeopkg.Package) string {
 // information too. Note that a delta package is still a package in its own
 // right, its just installed and handled differently (lacking files, etc.)
 func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *DeltaInformation, copyDisk bool) (*PoolEntry, error) {
+	p.refMut.Lock()
+	defer p.refMut.Unlock()
+
 	// Check if this is just a simple case of bumping the refcount
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
 		entry.RefCount++
@@ -247,12 +253,18 @@ func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copy
 // to actually push it on disk, or simply bump the ref count. Any file
 // passed to us is believed to be under our ownership now.
 func (p *Pool) AddPackage(db libdb.Database, pkg *libeopkg.Package, copy bool) (*PoolEntry, error) {
+	p.refMut.Lock()
+	defer p.refMut.Unlock()
+
 	return p.addPackageInternal(db, pkg, copy, nil)
 }
 
 // RefEntry will include the given eopkg if it doesn't yet exist, otherwise
 // it will simply increase the ref count by 1.
 func (p *Pool) RefEntry(db libdb.Database, id string) error {
+	p.refMut.Lock()
+	defer p.refMut.Unlock()
+
 	entry, err := p.GetEntry(db, id)
 	if err != nil {
 		return err
@@ -265,6 +277,9 @@ func (p *Pool) RefEntry(db libdb.Database, id string) error {
 // Should the refcount hit 0, the package will then be removed from the pool
 // storage.
 func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
+	p.refMut.Lock()
+	defer p.refMut.Unlock()
+
 	entry, err := p.GetEntry(db, id)
 	if err != nil {
 		return err
-- 
2.43.0


From 72e76db87fb7e4821bc6ec16114112f371b899c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:46 +0000
Subject: [PATCH 26/41] fix: keep removals from undoing concurrent insertions

---
 src/ferryd/core/repo.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index b26aa1d..a12d2c9 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -258,6 +258,10 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		return fmt.Errorf("The specified repository '%s' does not exist", id)
 	}
 
+	// Nobody may insert anything into it from now on
+	repo.insertMut.Lock()
+	defer repo.insertMut.Unlock()
+
 	delete(r.repos, id)
 
 	repoBucket := db.Bucket([]byte(DatabaseBucketRepo))
@@ -458,11 +462,8 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 	return r.putEntry(db, entry)
 }
 
-// Internal helper to remove packages
+// Internal helper to remove packages, insertMut must be held by the caller
 func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id string) error {
-	r.insertMut.Lock()
-	defer r.insertMut.Unlock()
-
 	poolEntry, err := pool.GetEntry(db, id)
 	if err != nil {
 		return nil
@@ -505,6 +506,9 @@ func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id strin
 // Additionally, we'll locate stray deltas which lead either TO or FROM the given
 // package as they'll now be useless to anyone.
 func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) error {
+	r.insertMut.Lock()
+	defer r.insertMut.Unlock()
+
 	newHighest := 0
 	var newHighestID string
 
-- 
2.43.0


From 4153ac69583cd385d91dc8bc5bfbd66152a98c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:41 +0000
Subject: [PATCH 27/41] fix: do not build the deltas of a package twice at the
 same time

---
 src/ferryd/core/api.go     | 8 ++++++++
 src/ferryd/core/manager.go | 3 +++
 src/ferryd/jobs/delta.go   | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index f66d02d..77839b1 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -18,6 +18,7 @@ package core
 
 import (
 	"path/filepath"
+	"sync"
 
 	"github.com/getsolus/ferryd/src/libeopkg"
 )
@@ -226,6 +227,13 @@ func (m *Manager) GetPackages(repoID, pkgName string) ([]*libeopkg.MetaPackage,
 	return repo.GetPackages(m.db, m.pool, pkgName)
 }
 
+// GetDeltaLock will return the lock which must be held while producing and adding
+// the delta packages of the given package in the specified repository
+func (m *Manager) GetDeltaLock(repoID, pkgName string) *sync.Mutex {
+	mut, _ := m.deltaLocks.LoadOrStore([2]string{repoID, pkgName}, &sync.Mutex{})
+	return mut.(*sync.Mutex)
+}
+
 // CreateDelta will attempt to create a new delta package between the old and new IDs
 func (m *Manager) CreateDelta(repoID string, oldPkg, newPkg *libeopkg.MetaPackage) (string, error) {
 	repo, err := m.GetRepo(repoID)
diff --git a/src/ferryd/core/manager.go b/src/ferryd/core/manager.go
index f7ef8e3..59b825c 100644
--- a/src/ferryd/core/manager.go
+++ b/src/ferryd/core/manager.go
@@ -19,6 +19,7 @@ package core
 import (
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/getsolus/ferryd/src/libdb"
 )
@@ -31,6 +32,8 @@ type Manager struct {
 	repo *RepositoryManager // Repo management
 
 	IncomingPath string // Incoming directory
+
+	deltaLocks sync.Map // Locks for building the deltas of a package
 }
 
 // NewManager will attempt to instaniate a manager for the given path,
diff --git a/src/ferryd/jobs/delta.go b/src/ferryd/jobs/delta.go
index 66e296e..5feeab8 100644
--- a/src/ferryd/jobs/delta.go
+++ b/src/ferryd/jobs/delta.go
@@ -72,6 +72,11 @@ func NewDeltaJobHandler(j *JobEntry, indexRepo bool) (*DeltaJobHandler, error) {
 // executeInternal is the common code shared in the delta jobs, and is
 // split out to save duplication.
 func (j *DeltaJobHandler) executeInternal(manager *core.Manager) error {
+	// Nobody else may build the same deltas in the same place meanwhile
+	mut := manager.GetDeltaLock(j.repoID, j.packageName)
+	mut.Lock()
+	defer mut.Unlock()
+
 	pkgs, err := manager.GetPackages(j.repoID, j.packageName)
 	if err != nil {
 		return err
-- 
2.43.0


From ddc635ef9312caefb1f2b4907d218b448f820c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 28/41] fix: keep watching for uploads after an error such as
 an overflow

---
 src/ferryd/monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 6e7870b..2d958f2 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -61,6 +61,11 @@ func (s *Server) WatchIncoming() {
 						s.processTransitManifest(filepath.Base(event.Name))
 					}
 				}
+			case err := <-s.watcher.Errors:
+				// Nobody else takes these, and there are no more events until they're gone
+				log.WithFields(log.Fields{
+					"error": err,
+				}).Error("Failed to watch for uploads")
 			case <-s.watchChan:
 				return
 			}
-- 
2.43.0


From ce9f45a3b62552869ae58d86edcca1dea4ddd88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 29/41] fix: shut down in order, and without a crash while
 clients are connected

---
 src/ferryd/server.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 9e6181c..c9734f5 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"errors"
 	"net"
 	"net/http"
@@ -59,8 +60,12 @@ type Server struct {
 	watchChan  chan bool         // Allow terminating the watcher
 	watchGroup *sync.WaitGroup   // Allow blocking watch terminate.
 	socketPath string
+	closed     chan bool // Closed when we have shut down
 }
 
+// shutdownTimeout is how long we wait for requests to finish
+const shutdownTimeout = 10 * time.Second
+
 // NewServer will return a newly initialised Server which is currently unbound
 func NewServer() (*Server, error) {
 	router := httprouter.New()
@@ -76,6 +81,7 @@ func NewServer() (*Server, error) {
 		router:      router,
 		timeStarted: time.Now().UTC(),
 		watchGroup:  &sync.WaitGroup{},
+		closed:      make(chan bool),
 	}
 
 	// Before we can actually bind the socket, we must lock the file
@@ -227,6 +233,8 @@ func (s *Server) Serve() error {
 	if e := s.srv.Serve(s.socket); e != http.ErrServerClosed {
 		return e
 	}
+	// Close has only just begun
+	<-s.closed
 	return nil
 }
 
@@ -235,12 +243,17 @@ func (s *Server) Close() {
 	if !s.running {
 		return
 	}
+	// Finish the requests we've got before taking away what they need, but
+	// don't let a client keep us from stopping
+	ctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	s.srv.Shutdown(ctx)
+
 	s.StopWatching()
 	s.jproc.Close()
 	s.store.Close()
 	s.manager.Close()
 	s.running = false
-	s.srv.Shutdown(nil)
 
 	// We don't technically fully own it if systemd created it
 	if !systemdEnabled {
@@ -252,4 +265,5 @@ func (s *Server) Close() {
 		s.lockFile.Clean()
 		s.lockFile = nil
 	}
+	close(s.closed)
 }
-- 
2.43.0


From aedeaf73395c7de673bfdf42b81a9139ff6aa449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 30/41] fix: replace the socket that a killed daemon left

---
 src/ferryd/server.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index c9734f5..db2513d 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -142,6 +142,20 @@ func (s *Server) killHandler() {
 	}()
 }
 
+// isStaleSocket determines whether the path is a socket nobody listens on, which
+// is left behind by a ferryd that was killed.
+func isStaleSocket(path string) bool {
+	st, err := os.Lstat(path)
+	if err != nil || st.Mode()&os.ModeSocket == 0 {
+		return false
+	}
+	conn, err := net.Dial("unix", path)
+	if err == nil {
+		conn.Close()
+	}
+	return errors.Is(err, syscall.ECONNREFUSED)
+}
+
 // Bind will attempt to set up the listener on the unix socket
 // prior to serving.
 func (s *Server) Bind() error {
@@ -170,6 +184,10 @@ func (s *Server) Bind() error {
 		systemdEnabled = true
 	} else {
 		l, e := net.Listen("unix", s.socketPath)
+		if errors.Is(e, syscall.EADDRINUSE) && isStaleSocket(s.socketPath) {
+			os.Remove(s.socketPath)
+			l, e = net.Listen("unix", s.socketPath)
+		}
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From 3b2f0823dc36af5b6b6bfeaab3fa917b6803647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 31/41] fix: report requests that could not be queued

---
 src/ferryd/handlers.go         | 29 ++++++++++++++++++-----------
 src/ferryd/jobs/delta_repo.go  |  4 +++-
 src/ferryd/jobs/processor.go   |  7 +++----
 src/ferryd/jobs/pull_repo.go   |  4 +++-
 src/ferryd/jobs/transit_job.go |  8 +++++++-
 src/ferryd/monitor.go          |  7 ++++++-
 6 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/ferryd/handlers.go b/src/ferryd/handlers.go
index 09b19a8..49b25f5 100644
--- a/src/ferryd/handlers.go
+++ b/src/ferryd/handlers.go
@@ -62,6 +62,13 @@ func (s *Server) sendStockError(err error, w http.ResponseWriter, r *http.Reques
 	w.Write(buf.Bytes())
 }
 
+// pushJob will queue the job for a request, and tell the client when that failed
+func (s *Server) pushJob(job *jobs.JobEntry, w http.ResponseWriter, r *http.Request) {
+	if err := s.jproc.PushJob(job); err != nil {
+		s.sendStockError(err, w, r)
+	}
+}
+
 // GetStatus will return the current status of the ferryd instance
 func (s *Server) GetStatus(w http.ResponseWriter, r *http.Request, _ httprouter.Params) {
 	ret := libferry.StatusRequest{
@@ -146,7 +153,7 @@ func (s *Server) CreateRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository creation requested")
-	s.jproc.PushJob(jobs.NewCreateRepoJob(id))
+	s.pushJob(jobs.NewCreateRepoJob(id), w, r)
 }
 
 // DeleteRepo will handle remote requests for repository deletion
@@ -155,7 +162,7 @@ func (s *Server) DeleteRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository deletion requested")
-	s.jproc.PushJob(jobs.NewDeleteRepoJob(id))
+	s.pushJob(jobs.NewDeleteRepoJob(id), w, r)
 }
 
 // DeltaRepo will handle remote requests for repository deltaing
@@ -164,7 +171,7 @@ func (s *Server) DeltaRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository delta requested")
-	s.jproc.PushJob(jobs.NewDeltaRepoJob(id))
+	s.pushJob(jobs.NewDeltaRepoJob(id), w, r)
 }
 
 // IndexRepo will handle remote requests for repository indexing
@@ -173,7 +180,7 @@ func (s *Server) IndexRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository indexing requested")
-	s.jproc.PushJob(jobs.NewIndexRepoJob(id))
+	s.pushJob(jobs.NewIndexRepoJob(id), w, r)
 }
 
 // ImportPackages will bulk-import the packages in the request
@@ -192,7 +199,7 @@ func (s *Server) ImportPackages(w http.ResponseWriter, r *http.Request, p httpro
 		"npackages": len(req.Path),
 	}).Info("Repository bulk import requested")
 
-	s.jproc.PushJob(jobs.NewBulkAddJob(id, req.Path))
+	s.pushJob(jobs.NewBulkAddJob(id, req.Path), w, r)
 }
 
 // CloneRepo will proxy a job to clone an existing repository
@@ -212,7 +219,7 @@ func (s *Server) CloneRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 		"fullClone": req.CopyAll,
 	}).Info("Repository clone requested")
 
-	s.jproc.PushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
+	s.pushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll), w, r)
 }
 
 // PullRepo will proxy a job to pull an existing repository
@@ -231,7 +238,7 @@ func (s *Server) PullRepo(w http.ResponseWriter, r *http.Request, p httprouter.P
 		"target": target,
 	}).Info("Repository pull requested")
 
-	s.jproc.PushJob(jobs.NewPullRepoJob(req.Source, target))
+	s.pushJob(jobs.NewPullRepoJob(req.Source, target), w, r)
 }
 
 // RemoveSource will proxy a job to remove an existing set of packages by source name + relno
@@ -251,7 +258,7 @@ func (s *Server) RemoveSource(w http.ResponseWriter, r *http.Request, p httprout
 		"repo":    target,
 	}).Info("Source removal requested")
 
-	s.jproc.PushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release))
+	s.pushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release), w, r)
 }
 
 // CopySource will proxy a job to copy a package by source&relno into target
@@ -273,7 +280,7 @@ func (s *Server) CopySource(w http.ResponseWriter, r *http.Request, p httprouter
 		"skipIndex":  req.SkipIndex,
 	}).Info("Source copy requested")
 
-	s.jproc.PushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
+	s.pushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex), w, r)
 }
 
 // TrimPackages will proxy a job to remove excess fat from a repo
@@ -292,7 +299,7 @@ func (s *Server) TrimPackages(w http.ResponseWriter, r *http.Request, p httprout
 		"maxKeep": req.MaxKeep,
 	}).Info("Package trim requested")
 
-	s.jproc.PushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep))
+	s.pushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep), w, r)
 }
 
 // TrimObsolete will proxy a job to remove obsolete packages from a repo
@@ -301,7 +308,7 @@ func (s *Server) TrimObsolete(w http.ResponseWriter, r *http.Request, p httprout
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Obsoletes trim requested")
-	s.jproc.PushJob(jobs.NewTrimObsoleteJob(id))
+	s.pushJob(jobs.NewTrimObsoleteJob(id), w, r)
 }
 
 // ResetCompleted will ask the job store to remove completed jobs. This is blocking.
diff --git a/src/ferryd/jobs/delta_repo.go b/src/ferryd/jobs/delta_repo.go
index 60f70ba..c3b3c6d 100644
--- a/src/ferryd/jobs/delta_repo.go
+++ b/src/ferryd/jobs/delta_repo.go
@@ -72,7 +72,9 @@ func (j *DeltaRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) e
 
 	// Fire off parallel delta jobs for every package in this repository
 	for _, name := range packageNames {
-		jproc.PushJob(NewDeltaJob(j.repoID, name))
+		if err = jproc.PushJob(NewDeltaJob(j.repoID, name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/processor.go b/src/ferryd/jobs/processor.go
index a62515e..54e03f0 100644
--- a/src/ferryd/jobs/processor.go
+++ b/src/ferryd/jobs/processor.go
@@ -107,10 +107,9 @@ func (j *Processor) Begin() {
 
 // PushJob will automatically determine which queue to push a job to and place
 // it there for immediate execution
-func (j *Processor) PushJob(job *JobEntry) {
+func (j *Processor) PushJob(job *JobEntry) error {
 	if job.sequential {
-		j.store.PushSequentialJob(job)
-	} else {
-		j.store.PushAsyncJob(job)
+		return j.store.PushSequentialJob(job)
 	}
+	return j.store.PushAsyncJob(job)
 }
diff --git a/src/ferryd/jobs/pull_repo.go b/src/ferryd/jobs/pull_repo.go
index 58eb3f6..07f6917 100644
--- a/src/ferryd/jobs/pull_repo.go
+++ b/src/ferryd/jobs/pull_repo.go
@@ -74,7 +74,9 @@ func (j *PullRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) er
 	// Create delta job in this repository on the changed names
 	// Don't cause indexing because it causes noise
 	for _, pkg := range changedNames {
-		jproc.PushJob(NewDeltaIndexJob(j.targetID, pkg))
+		if err = jproc.PushJob(NewDeltaIndexJob(j.targetID, pkg)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/transit_job.go b/src/ferryd/jobs/transit_job.go
index 5701274..c3db8e9 100644
--- a/src/ferryd/jobs/transit_job.go
+++ b/src/ferryd/jobs/transit_job.go
@@ -111,7 +111,13 @@ func (j *TransitJobHandler) Execute(jproc *Processor, manager *core.Manager) err
 		if ent != nil {
 			return err
 		}
-		jproc.PushJob(NewDeltaIndexJob(repo, p.Name))
+		if err := jproc.PushJob(NewDeltaIndexJob(repo, p.Name)); err != nil {
+			log.WithFields(log.Fields{
+				"target":  repo,
+				"package": p.Name,
+				"error":   err,
+			}).Error("Failed to queue delta job")
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 2d958f2..2d22e75 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -96,5 +96,10 @@ func (s *Server) processTransitManifest(name string) {
 	log.WithFields(log.Fields{
 		"id": name,
 	}).Info("Received transit manifest upload")
-	s.jproc.PushJob(jobs.NewTransitJob(fullpath))
+	if err := s.jproc.PushJob(jobs.NewTransitJob(fullpath)); err != nil {
+		log.WithFields(log.Fields{
+			"id":    name,
+			"error": err,
+		}).Error("Failed to queue transit manifest upload")
+	}
 }
-- 
2.43.0


From ac4a208d2285eecfda2f4fb2aca0776bc16e183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 32/41] fix: publish a remaining package whatever its release
 number is

---
 src/ferryd/core/repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index a12d2c9..37bb873 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -558,7 +558,7 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 		}
 		// Learn highest relno here, it's going to be the published ID
 		curRel := availEntry.Meta.GetRelease()
-		if curRel > newHighest {
+		if newHighestID == "" || curRel > newHighest {
 			newHighest = curRel
 			newHighestID = id
 		}
-- 
2.43.0


From 9968d4845f9f942d8fb117ff7b0b0abbeaeeb220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 33/41] fix: move a finished job to its history, and reset a
 history, in one transaction

---
 src/ferryd/jobs/store.go | 76 ++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index fd63f70..3fda3b3 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -211,8 +211,9 @@ func (s *JobStore) ClaimSequentialJob() (*JobEntry, error) {
 	return s.claimJobInternal([]byte(BucketSequentialJobs))
 }
 
-// Used to mark the completion of a job and store in the appropriate bucket
-func (s *JobStore) markCompletion(j *JobEntry) error {
+// Used to mark the completion of a job and store in the appropriate bucket,
+// within the transaction that removes it from its queue
+func (s *JobStore) markCompletion(db libdb.Database, j *JobEntry) error {
 	var bucketID []byte
 	if j.failure != nil {
 		bucketID = BucketFailJobs
@@ -222,7 +223,8 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 
 	// We're already locked at this point so its safe to work out our next
 	// index
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
+	historyBucket := db.Bucket(bucketID)
+	bucket := historyBucket.Bucket(BucketRecord)
 	record := IndexRecord{
 		Index: 0,
 	}
@@ -250,22 +252,18 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 	binary.BigEndian.PutUint64(nextID, record.Index)
 
 	// We'll need to figure out how to truncate our buckets..
-	return s.db.Update(func(db libdb.Database) error {
-		bucket := db.Bucket(bucketID)
-
-		storeJob := libferry.Job{
-			Timing:      j.Timing,
-			Description: j.description,
-		}
+	storeJob := libferry.Job{
+		Timing:      j.Timing,
+		Description: j.description,
+	}
 
-		// Mark relevant failure fields
-		if j.failure != nil {
-			storeJob.Error = j.failure.Error()
-			storeJob.Failed = true
-		}
+	// Mark relevant failure fields
+	if j.failure != nil {
+		storeJob.Error = j.failure.Error()
+		storeJob.Failed = true
+	}
 
-		return bucket.PutObject(nextID, &storeJob)
-	})
+	return historyBucket.PutObject(nextID, &storeJob)
 }
 
 // RetireAsyncJob removes a completed asynchronous job
@@ -273,14 +271,12 @@ func (s *JobStore) RetireAsyncJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketAsyncJobs).DeleteObject(j.id)
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketAsyncJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // RetireSequentialJob removes a completed synchronous job
@@ -288,14 +284,12 @@ func (s *JobStore) RetireSequentialJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketSequentialJobs).DeleteObject(j.id)
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketSequentialJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // pushJobInternal is identical between sync and async jobs, it
@@ -417,19 +411,19 @@ func (s *JobStore) resetInternal(bucketID []byte) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
-	hasIndex, err := bucket.HasObject(IndexRecordKey)
-	if err != nil {
-		return err
-	}
-	if hasIndex {
-		if err := bucket.DeleteObject(IndexRecordKey); err != nil {
+	// batch delete the jobs
+	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
+		bucket := db.Bucket(BucketRecord)
+		hasIndex, err := bucket.HasObject(IndexRecordKey)
+		if err != nil {
 			return err
 		}
-	}
+		if hasIndex {
+			if err := bucket.DeleteObject(IndexRecordKey); err != nil {
+				return err
+			}
+		}
 
-	// batch delete the jobs
-	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
 		return db.ForEach(func(k, v []byte) error {
 			return db.DeleteObject(k)
 		})
-- 
2.43.0


From 153b194053c71525be3425d169df6b5e5cb56037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 34/41] fix: delete a pool record before its file, so that the
 package can be added again

---
 src/ferryd/core/pool.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index a13afe3..8100318 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -289,7 +289,13 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 		return p.putEntry(db, entry)
 	}
 
-	// RefCount is 0 so we now need to delete this entry
+	// RefCount is 0 so we now need to delete this entry. Remove it from the DB
+	// first, an entry without a file couldn't be added again
+	b := db.Bucket([]byte(DatabaseBucketPool))
+	if err := b.DeleteObject([]byte(id)); err != nil {
+		return err
+	}
+
 	pkgPath := filepath.Join(p.poolDir, entry.Meta.GetPathComponent(), id)
 	if err := os.Remove(pkgPath); err != nil {
 		log.WithFields(log.Fields{
@@ -306,9 +312,7 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 		}).Warning("Failed to remove package parents")
 	}
 
-	// Now remove from DB
-	b := db.Bucket([]byte(DatabaseBucketPool))
-	return b.DeleteObject([]byte(id))
+	return nil
 }
 
 // MarkDeltaFailed will insert a record indicating that it is not possible
-- 
2.43.0


From 1183685e330211b419c9fb0fdd012fc2bc98e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 35/41] fix: report failing database reads instead of
 forgetting what was listed

---
 src/ferryd/core/pool.go |  4 ++++
 src/ferryd/core/repo.go | 36 ++++++++++++++++++++++++++----------
 src/libdb/main.go       |  6 ++++++
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index 8100318..2688e74 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -169,6 +169,8 @@ func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *Delta
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
+	} else if err != libdb.ErrNotFound {
+		return nil, err
 	}
 
 	// Validate these source/target packages *actually* exist
@@ -203,6 +205,8 @@ func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copy
 		}
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
+	} else if err != libdb.ErrNotFound {
+		return nil, err
 	}
 
 	st, err := os.Stat(pkg.Path)
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 37bb873..3cb1b38 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -610,7 +610,10 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
 	targetPath := filepath.Join(targetDir, pkgID)
 
-	repoEntry := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
+	repoEntry, err := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
+	if err != nil {
+		return err
+	}
 	// Already included
 	if repoEntry == nil {
 		return nil
@@ -636,7 +639,7 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 
 // buildSaneEntry will either return a plain entry if none exists already, otherwise it will
 // take an existing entry and correctly set up the available/published fields
-func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeopkg.MetaPackage, newID string) *RepoEntry {
+func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeopkg.MetaPackage, newID string) (*RepoEntry, error) {
 	// Fallback in case one actually doesn't exist yet
 	repoEntry := &RepoEntry{
 		SchemaVersion: RepoSchemaVersion,
@@ -644,8 +647,10 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 		Published:     newID,
 	}
 
-	// Not so worried about the error, just having the entry
-	entry, _ := r.GetEntry(db, newPkg.Name)
+	entry, err := r.GetEntry(db, newPkg.Name)
+	if err != nil && err != libdb.ErrNotFound {
+		return nil, err
+	}
 
 	// Clone across the relevant field now
 	if entry != nil {
@@ -664,8 +669,10 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 					"repo":       r.ID,
 				}).Error("Duplicate release number detected. Fix immediately!")
 			}
-		} else {
+		} else if err == libdb.ErrNotFound {
 			repoEntry.Published = newID
+		} else {
+			return nil, err
 		}
 	}
 
@@ -676,7 +683,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 				"id":   id,
 				"repo": r.ID,
 			}).Info("Skipping already included package")
-			return nil
+			return nil, nil
 		}
 	}
 
@@ -684,7 +691,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	repoEntry.Available = append(repoEntry.Available, newID)
 	sort.Strings(repoEntry.Available)
 
-	return repoEntry
+	return repoEntry, nil
 }
 
 // AddLocalPackage will do the real work of adding an open & loaded eopkg to the repository
@@ -696,7 +703,10 @@ func (r *Repository) AddLocalPackage(db libdb.Database, pool *Pool, pkg *libeopk
 	pkgTarget := filepath.Join(pkgDir, pkg.ID)
 
 	// Already have a package, so let's copy the existing bits over
-	repoEntry := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
+	repoEntry, err := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
+	if err != nil {
+		return err
+	}
 
 	// nil == already included
 	if repoEntry == nil {
@@ -742,9 +752,12 @@ func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string,
 
 	// Do we have this?
 	localPkg, err := r.GetEntry(db, pkg.Meta.Package.Name)
-	if err != nil {
+	if err == libdb.ErrNotFound {
 		return r.AddLocalPackage(db, pool, pkg)
 	}
+	if err != nil {
+		return err
+	}
 
 	// We have this package, so Published link must work
 	published, err := pool.GetEntry(db, localPkg.Published)
@@ -987,7 +1000,10 @@ func (r *Repository) PullFrom(db libdb.Database, pool *Pool, sourceRepo *Reposit
 			return err
 		}
 
-		localEntry, _ := r.GetEntry(db, entry.Name)
+		localEntry, err := r.GetEntry(db, entry.Name)
+		if err != nil && err != libdb.ErrNotFound {
+			return err
+		}
 
 		// We haven't got this, copy the published version
 		if localEntry == nil {
diff --git a/src/libdb/main.go b/src/libdb/main.go
index 08ca462..bbc42b9 100644
--- a/src/libdb/main.go
+++ b/src/libdb/main.go
@@ -18,9 +18,15 @@ package libdb
 
 import (
 	"sync"
+
+	"github.com/syndtr/goleveldb/leveldb"
 )
 
 // DbForeachFunc is used in the root (untyped buckets)
+// ErrNotFound is returned by GetObject when there is no such object, as opposed
+// to a failure to read it.
+var ErrNotFound = leveldb.ErrNotFound
+
 type DbForeachFunc func(key, val []byte) error
 
 // A Closable is a handle or database that can be closed
-- 
2.43.0


From 39f2acd3b1fa60cc95f252e5ef17e942ce912750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 36/41] fix: refuse a job when the sequence of its queue cannot
 be read, instead of overwriting one

---
 src/ferryd/jobs/store.go | 8 +++++---
 src/libdb/leveldb.go     | 8 ++++++--
 src/libdb/main.go        | 2 +-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 3fda3b3..b2c540d 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -299,8 +299,6 @@ func (s *JobStore) pushJobInternal(j *JobEntry, bk []byte) error {
 	j.Timing.Queued = time.Now().UTC()
 	j.Claimed = false
 
-	j.id = s.db.Bucket(bk).NextSequence()
-
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
@@ -308,7 +306,11 @@ func (s *JobStore) pushJobInternal(j *JobEntry, bk []byte) error {
 		bucket := db.Bucket(bk)
 		// Use next natural sequence in the bucket
 
-		j.id = bucket.NextSequence()
+		id, err := bucket.NextSequence()
+		if err != nil {
+			return err
+		}
+		j.id = id
 		return bucket.PutObject(j.id, j)
 	})
 }
diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index de19788..8059f02 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -195,7 +195,7 @@ func (l *levelDbHandle) Update(f WriterFunc) error {
 
 // NextSequence will return the next natural key to be used for inserts,
 // when the application only needs a unique record, not a specific key.
-func (l *levelDbHandle) NextSequence() []byte {
+func (l *levelDbHandle) NextSequence() ([]byte, error) {
 	l.seqLock.Lock()
 	defer l.seqLock.Unlock()
 
@@ -203,6 +203,10 @@ func (l *levelDbHandle) NextSequence() []byte {
 	defer iter.Release()
 	var retKey uint64
 	if !iter.Last() {
+		// Only an empty bucket starts from scratch
+		if err := iter.Error(); err != nil {
+			return nil, err
+		}
 		retKey = 0
 	} else {
 		key := iter.Key()
@@ -217,5 +221,5 @@ func (l *levelDbHandle) NextSequence() []byte {
 	}
 	byt := make([]byte, 8)
 	binary.BigEndian.PutUint64(byt, retKey)
-	return byt
+	return byt, nil
 }
diff --git a/src/libdb/main.go b/src/libdb/main.go
index bbc42b9..39c00fe 100644
--- a/src/libdb/main.go
+++ b/src/libdb/main.go
@@ -78,7 +78,7 @@ type Database interface {
 
 	// NextSequence returns the next natural sequence for insert-order-centric applications
 	// Note this will cause implementations to lock while finding the natural sequence
-	NextSequence() []byte
+	NextSequence() ([]byte, error)
 
 	// Convert view of current database or bucket into a read-only one.
 	// This should not be considered a transaction, just special sauce.
-- 
2.43.0


From 6f8c15bfb6def626d8e90c13cebcf743555b9660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:24 +0000
Subject: [PATCH 37/41] fix: report a failing read of a history's index instead
 of overwriting its first record

---
 src/ferryd/jobs/store.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index b2c540d..86fbcde 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -229,9 +229,11 @@ func (s *JobStore) markCompletion(db libdb.Database, j *JobEntry) error {
 		Index: 0,
 	}
 
-	// Try to grab it, otherwise reset it
-	if err := bucket.GetObject(IndexRecordKey, &record); err != nil {
+	// Try to grab it, otherwise start from scratch
+	if err := bucket.GetObject(IndexRecordKey, &record); err == libdb.ErrNotFound {
 		record.Index = 0
+	} else if err != nil {
+		return err
 	} else {
 		// Grabbed an existing record, so increment the key
 		record.Index++
-- 
2.43.0


From a8814c0612ffaaba111b623891a515be0dc2875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:48 +0000
Subject: [PATCH 38/41] fix: report a failing read while a removed package is
 released, instead of keeping its reference

---
 src/ferryd/core/repo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 3cb1b38..60039f7 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -465,9 +465,12 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 // Internal helper to remove packages, insertMut must be held by the caller
 func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id string) error {
 	poolEntry, err := pool.GetEntry(db, id)
-	if err != nil {
+	if err == libdb.ErrNotFound {
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 
 	pkgDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
 	pkgTarget := filepath.Join(pkgDir, poolEntry.Name)
-- 
2.43.0


From 1b1dd0a7582317afe6fc0036a89c33d05e5f8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:18 +0000
Subject: [PATCH 39/41] fix: write texts to the index so that character
 references in them are understood

Inside a CDATA section the references that EscapedWriter writes for symbols and
special spaces are literal text, so summaries, descriptions and update comments
showed e.g. '&#x20AC;' instead of the euro sign.
---
 src/libeopkg/distribution.go | 2 +-
 src/libeopkg/main.go         | 2 +-
 src/libeopkg/metadata.go     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libeopkg/distribution.go b/src/libeopkg/distribution.go
index 6105bff..1adb7ff 100644
--- a/src/libeopkg/distribution.go
+++ b/src/libeopkg/distribution.go
@@ -27,7 +27,7 @@ type Distribution struct {
 
 	// Translated description
 	Description []struct {
-		Value string `xml:",cdata"`
+		Value string `xml:",chardata"`
 		Lang  string `xml:"lang,attr,omitempty"`
 	}
 
diff --git a/src/libeopkg/main.go b/src/libeopkg/main.go
index acd51bb..71efa22 100644
--- a/src/libeopkg/main.go
+++ b/src/libeopkg/main.go
@@ -40,7 +40,7 @@ var (
 // LocalisedField is used in various parts of the eopkg metadata to provide
 // a field value with an xml:lang attribute describing the language
 type LocalisedField struct {
-	Value string `xml:",cdata"`
+	Value string `xml:",chardata"`
 	Lang  string `xml:"http://www.w3.org/XML/1998/namespace lang,attr,omitempty"`
 }
 
diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 39d9c67..5150ed7 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -71,10 +71,10 @@ type Update struct {
 	Date    string // When the update was issued
 	Version string // Version of the package at the time of this update
 	Comment struct {
-		Value string `xml:",cdata"` // Comment explaining  the update
+		Value string `xml:",chardata"` // Comment explaining  the update
 	}
 	Name struct {
-		Value string `xml:",cdata"` // Updater's name
+		Value string `xml:",chardata"` // Updater's name
 	}
 	Email string // Updater's email
 
-- 
2.43.0


From 1fe757d89e3bd4046608920058da03ec581ef316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:45 +0000
Subject: [PATCH 40/41] fix: build a delta again that leaves the pool while a
 delta job reuses it

When the last repository listing a delta drops it between the job's look into
the pool and its attempt to reference it, the job failed although it can build
the delta as if it had never been there.
---
 src/ferryd/jobs/delta.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/jobs/delta.go b/src/ferryd/jobs/delta.go
index 5feeab8..078d69b 100644
--- a/src/ferryd/jobs/delta.go
+++ b/src/ferryd/jobs/delta.go
@@ -24,6 +24,7 @@ import (
 	log "github.com/sirupsen/logrus"
 
 	"github.com/getsolus/ferryd/src/ferryd/core"
+	"github.com/getsolus/ferryd/src/libdb"
 	"github.com/getsolus/ferryd/src/libeopkg"
 )
 
@@ -131,14 +132,18 @@ func (j *DeltaJobHandler) executeInternal(manager *core.Manager) error {
 		// If so, just re-ref it for usage within the new repo
 		entry, err := manager.GetPoolEntry(deltaID)
 		if entry != nil && err == nil {
-			if err := manager.RefDelta(j.repoID, deltaID); err != nil {
+			err := manager.RefDelta(j.repoID, deltaID)
+			if err == nil {
+				log.WithFields(fields).Info("Reused existing delta")
+				j.nDeltas++ // It's new to this repository
+				continue
+			}
+			// Dropped by its last user just now? Then build it again
+			if err != libdb.ErrNotFound {
 				fields["error"] = err
 				log.WithFields(fields).Error("Failed to ref existing delta")
 				return err
 			}
-			log.WithFields(fields).Info("Reused existing delta")
-			j.nDeltas++ // It's new to this repository
-			continue
 		}
 
 		deltaPath, err := manager.CreateDelta(j.repoID, old, tip)
-- 
2.43.0


From 54f8848b50940f85b8758e71ddfb77f9a2c222b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:24 +0000
Subject: [PATCH 41/41] fix: Don't publish deltas that a package's own metadata
 claims

---
 src/ferryd/core/repo_index.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ferryd/core/repo_index.go b/src/ferryd/core/repo_index.go
index 6a8f0ba..1bfd9d8 100644
--- a/src/ferryd/core/repo_index.go
+++ b/src/ferryd/core/repo_index.go
@@ -157,6 +157,9 @@ func (r *Repository) pushDeltaPackages(db libdb.Database, pool *Pool, entry *Poo
 		})
 	}
 
+	// Only our own records decide, whatever the package itself may claim
+	entry.Meta.DeltaPackages = nil
+
 	// Deltas implicitly sorted by sort.Strings on their IDs
 	if deltas != nil && len(deltas) > 0 {
 		entry.Meta.DeltaPackages = &deltas
-- 
2.43.0

