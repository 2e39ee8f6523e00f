#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the statements are reviewable).
import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=obs or [],hook_needed=hook)))
def m(name,where): return dict(name=name,where=where)
def s(name,meaning,where): return dict(name=name,meaning=meaning,where=where)
R="src/ferryd/core/repo.go"; PO="src/ferryd/core/pool.go"; IX="src/ferryd/core/repo_index.go"; U="src/ferryd/core/util.go"; API="src/ferryd/core/api.go"
ST="src/ferryd/jobs/store.go"; JM="src/ferryd/jobs/main.go"; W="src/ferryd/jobs/worker.go"; LDB="src/libdb/leveldb.go"
NOTEST="The existing tests never run a repository operation: they only construct a manager and parse fixed files."

p("C01","Pool reference counts equal the number of repositories holding a package",
 "After every completed repository operation (add, clone, pull, copy, remove, trim, delta inclusion, repository deletion), the reference count of each pooled package or delta equals the number of repositories that list it. A pooled record and its pool file exist exactly while that number is positive.",
 ["inputs","histories"],"every valid repository/pool state within the bound, every operation and every argument",
 NOTEST+" The claim quantifies over all reachable states, not a handful of histories.",
 [R,PO],[m("RefEntry/UnrefEntry/addPackageInternal adjust the count","src/ferryd/core/pool.go"),m("repository operations pair every listing change with one pool call",R)],
 [s("PoolEntry.RefCount","number of repositories holding the file","src/ferryd/core/pool.go"),s("RepoEntry.Available/Deltas","what a repository lists",R)],
 ["list pool API","pool directory","database"])
p("C02","A listed package is always present on disk with its original bytes",
 "Every package or delta that a repository lists is backed by a pool record, and both its pool file and its file inside that repository exist with exactly the bytes that were imported. No operation on one repository alters or deletes files or listings of another repository.",
 ["inputs","histories"],"every valid state within the bound, every operation, every argument",
 NOTEST+" Sharing of hard-linked files between repositories only shows up across repositories and operations.",
 [R,PO,U],[m("hard link or copy into place","src/ferryd/core/util.go LinkOrCopyFile"),m("unlink only own tree; pool file freed at zero references",R)],None,["repo directory","pool directory"])
p("C03","The published version of a package is the newest available one",
 "After every completed operation, the version a repository publishes for a package name is one of the versions it has available, and no available version of that name has a higher release number. A name with no available version has no entry at all.",
 ["inputs","histories"],"every valid state within the bound, every operation, all release numbers >= 1",
 NOTEST+" Release numbers range over all integers and insertion orders.",
 [R],[m("buildSaneEntry on insert, UnrefPackage on removal",R)],[s("RepoEntry.Published","tip",R)],["index","GetPackages API"])
p("C04","Import accepts exactly the packages it should and is idempotent",
 "A bulk import adds every named valid package it does not already list and leaves already listed ones untouched. An upload (strict) import accepts a package only if its release is strictly newer than the published one, and a refused import leaves the listing of that package unchanged.",
 ["inputs","histories"],"every state within the bound, all release numbers and version strings",
 NOTEST,[R,API],[m("AddPackage strictness checks",R),m("already-included short cut in buildSaneEntry",R)],None,["error result","listing"])
p("C05","Cloning copies exactly the source repository",
 "Cloning a repository (whose versions of one name have distinct releases) creates a new repository that lists exactly the source's published versions, or with a full clone exactly all of the source's versions and deltas, with the same published versions and the same asset files; the source is unchanged. Cloning onto an existing name is refused and changes nothing.",
 ["inputs","histories"],"every source state within the bound, both clone modes, existing and new target names",
 NOTEST,[R,API],[m("CloneFrom/RefPackage/RefDelta/pullAssets",R)],None,["listing of both repositories","assets"])
p("C06","Pulling brings in exactly the newer tips and never removes anything",
 "A pull adds to the target exactly the source's published version of each name that the target lacks or publishes with a lower release, reports exactly those names as changed, and removes nothing. The source's asset files (distribution, components, groups) replace the target's; those the source lacks stay as they are. If the target publishes a higher release for some name, the pull fails and the package listings of the target stay unchanged.",
 ["inputs","histories"],"every pair of repository states within the bound, all release numbers",
 NOTEST,[R,API],[m("PullFrom comparison of tips before any insertion",R)],None,["listing of target","returned names"])
p("C07","Copying a source copies exactly the matching packages and reindexes on request",
 "Copying by source name and release adds to the target exactly the source repository's packages with that source name and release (every release when none is given) and nothing else, and fails without change when nothing matches. The target index is refreshed unless the caller asked to skip indexing.",
 ["inputs","histories"],"every pair of states within the bound, all source names, releases and skip flags",
 NOTEST,[R,API],[m("CopySourceFrom filter",R),m("index step in CopySource",API)],None,["listing of target","index of target"])
p("C08","Removing a source removes exactly the matching packages and their deltas",
 "Removing by source name and release removes from that repository exactly the packages with that source name and release (every release when none is given), together with exactly the deltas that lead from or to a removed package. It fails without change when nothing matches.",
 ["inputs","histories"],"every state within the bound, all source names and releases",
 NOTEST,[R],[m("RemoveSource filter and UnrefPackage delta collection",R)],None,["listing","repo directory"])
p("C09","Trimming keeps the newest versions and never the wrong ones",
 "Trimming to N keeps, for each package name (versions having distinct releases), exactly the N versions with the highest releases (all when there are at most N), never drops the published version, and removes nothing else. N below one is refused and changes nothing.",
 ["inputs","histories"],"every state within the bound, all release numbers, all N",
 NOTEST,[R],[m("TrimPackages sort and cut",R)],None,["listing"])
p("C10","Trimming obsoletes removes exactly the obsolete packages",
 "Trimming obsoletes removes every version of every package that the distribution file marks obsolete, including the -dbginfo companions of obsolete names, and removes nothing else. Without a distribution file it is refused and changes nothing.",
 ["inputs","histories"],"every state within the bound, all obsolete sets over the names",
 NOTEST+" The distribution test only parses a file.",[R,"src/libeopkg/distribution.go"],[m("TrimObsolete, IsObsolete",R)],None,["listing"])
p("C11","Repository creation and deletion are clean and isolated",
 "Creating a repository fails without side effects if one of that name exists, and otherwise yields an empty listed repository. Deleting a repository removes its records and directories and releases its packages, leaves all other repositories unchanged, and the name can be created again as an empty repository.",
 ["inputs","histories"],"every state within the bound, existing and missing names, sequences of create/delete/create",
 NOTEST,[R,API],[m("CreateRepo/DeleteRepo",R)],None,["list repos API","directories"])
p("C12","The index lists exactly the published non-obsolete packages",
 "A written index contains, sorted by package ID, exactly one entry per package name that is neither obsolete nor the -dbginfo companion of an obsolete name: the published version, with the size, SHA-1 and location of its real file. Each entry carries exactly the repository's deltas that lead to that published release, with their source release, size, hash and location. The index also carries exactly the distribution, components and groups of the repository's asset files.",
 ["inputs","histories"],"every state within the bound, all obsolete sets, releases and delta sets",
 NOTEST,[IX,PO],[m("emitIndex/emitIndexPackage/pushDeltaPackages",IX)],None,["eopkg-index.xml"])
p("C13","Index publication is atomic and self-consistent under faults and crashes",
 "At every instant, crash point or failing file operation during indexing, each published index or checksum file is either the complete previous version or the complete new one. If indexing fails before publication starts nothing published changes and no temporary index file remains, when it succeeds every compressed index and checksum matches the published index, and after a crash the next run succeeds.",
 ["crash_points","fault_sequences"],"every file-system operation of an indexing run as crash point or failing operation",
 "No test runs indexing; crash points and failing operations cannot be sampled by a unit test.",
 [IX,U,"src/libeopkg/util.go"],[m("write to .new files, then rename",IX),m("cleanup on error",IX)],None,["published files after crash/fault"],"file-operation interception for replay (source overlay, not committed)")
p("C14","An interrupted import can be repeated without losing or corrupting packages",
 "If the process dies at any point of an import, reference, clone or pull, no already published file changes, nothing listed is missing, and repeating the operation after restart (for a clone: after deleting the half-made clone) completes with the package listed and all files holding their original bytes.",
 ["crash_points","histories"],"every database or file-system mutation of the operation as crash point, followed by restart and repetition",
 "No test crashes an operation.",[R,PO,U],[m("pool record, link, then repository record",R),m("link-or-copy fallback",U)],None,["bytes of every pool/repo file"],"operation interception for replay (source overlay, not committed)")
p("C15","An interrupted removal never leaves a listed package without its files",
 "If the process dies at any point of a removal, trim or repository deletion, every package that is still listed afterwards is still backed by its pool record and files, repeating the operation after restart completes it, and what was removed can be imported again.",
 ["crash_points","histories"],"every database or file-system mutation of the operation as crash point, followed by restart and repetition",
 "No test crashes an operation.",[R,PO],[m("order of unlisting, unlinking and unreferencing",R)],None,["listing versus files"],"operation interception for replay (source overlay, not committed)")
p("C16","Index text escaping is lossless for every text and write chunking",
 "For every byte sequence and every way it is split into writes, the escaping writer's concatenated output, with character references resolved, equals the input with invalid UTF-8 replaced; the result does not depend on the split and every character that must be escaped is escaped.",
 ["inputs"],"all byte strings up to the bound, all splits",
 "The test writes four fixed strings in one call each.",["src/ferryd/core/escape.go"],[m("EscapedWriter.Write",  "src/ferryd/core/escape.go")],None,["bytes reaching the underlying writer"])
p("C17","Database buckets are isolated from each other",
 "Reading, writing, deleting or iterating one bucket never touches or shows a key of another bucket, for all bucket names and keys used by the daemon (repositories, package names, package IDs, job queues).",
 ["inputs"],"all bucket paths and keys of bounded length",
 "There is no database test.",[LDB],[m("key prefixing in getRealKey/Bucket/ForEach",LDB)],None,["Database API"])
p("C18","Database writes read back and transactions are all-or-nothing",
 "A stored object reads back equal, a deleted one is absent, iteration visits each live key of the bucket exactly once in key order with its latest value, and an update whose function returns an error changes nothing while a successful one applies all of its writes.",
 ["inputs","histories"],"all operation sequences up to the bound with arbitrary keys and values",
 "There is no database test.",[LDB,"src/libdb/transcoder.go"],[m("batch in Update, gob transcoder",LDB)],None,["Database API"])
p("C19","Jobs run in submission order and are neither lost nor duplicated",
 "Each queue hands out every submitted job exactly once, in the order of submission, one claim per job, and a claimed but unfinished job is never handed out again or overwritten by a later submission. An operation on a queue that fails because storage fails says so and changes nothing.",
 ["histories","fault_sequences"],"all interleavings of push, claim and retire up to the bound, on both queues, from any valid queue state",
 "There is no job store test.",[ST,LDB],[m("NextSequence keys, claim under lock",ST)],[s("job key","8-byte big endian sequence",ST)],["JobStore API"])
p("C20","Unfinished jobs survive a restart and become runnable again",
 "After a crash or restart at any point, every job that was submitted and whose retirement had not begun is still queued with the same parameters and order, unclaimed and with its timing reset, in both queues.",
 ["crash_points","histories"],"any queue state within the bound, crash at any store mutation",
 "There is no job store test.",[ST],[m("unclaimJobs on start-up",ST)],None,["JobStore API after reopen"])
p("C21","Job history keeps the latest outcomes, bounded and correctly classified",
 "Every executed job appears exactly once in the history of its outcome with its description, timing and error text; each history holds at most 100 records and always includes the most recent ones, overwriting the oldest first. Resetting one history empties exactly that one. After a crash or failing write at any point a finished job is either still queued or in its history, never in neither or both, and a history was reset as a whole or not at all.",
 ["histories","crash_points","fault_sequences"],"any history state (any number of prior records), any outcome sequence up to the bound",
 "There is no job store test; wrap-around needs more than 100 completions.",[ST,W],[m("markCompletion ring index",ST)],[s("IndexRecord.Index","next slot",ST)],["status API"])
p("C22","Requests reach the repository operation with exactly the given arguments",
 "For every client request, the operation eventually executed has exactly the repository names, source name, release number, limit and flags the client supplied; numbers that cannot be represented are reported as a job failure, never altered silently.",
 ["inputs"],"all argument values (64-bit numbers, strings up to the bound) of every request type",
 "No test covers client, handlers or job parameters.",["src/libferry/main.go","src/ferryd/handlers.go","src/ferryd/jobs"],[m("JSON request, string job parameters, parsing in job handlers","src/ferryd/jobs")],None,["effect on repositories","job description"])
p("C23","An upload manifest is accepted only when complete and verified",
 "A manifest loads only if it has version 1.0, a target, at least one file, and every file has a name ending in .eopkg and a checksum (surrounding blanks ignored); otherwise it is refused. Validation succeeds exactly when every listed file exists and its SHA-256 equals the listed one.",
 ["inputs"],"all header/file field values up to the bound, any subset of files missing or altered",
 "One well-formed manifest is parsed by the tests; validation is never run.",["src/ferryd/core/transit_manifest.go",U],[m("NewTransitManifest, ValidatePayload","src/ferryd/core/transit_manifest.go")],None,["returned error"])
p("C24","An upload is processed only when verified, and consumed only when imported",
 "Processing an upload changes a repository only if the manifest is valid, every payload checksum matches and the target exists, and then imports exactly the listed files into exactly the target. The uploaded files and the manifest are deleted only after a fully successful import; after any failure they are all still there.",
 ["inputs","fault_sequences"],"all manifests within the bound, any altered/missing payload, any failing import",
 "No test runs the upload job.",["src/ferryd/jobs/transit_job.go","src/ferryd/core/transit_manifest.go",R],[m("TransitJobHandler.Execute ordering","src/ferryd/jobs/transit_job.go")],None,["incoming directory","listing"])
p("C25","A delta package contains every file the old version cannot supply",
 "For any two versions, the produced delta contains the metadata of the new version and, unmodified, every entry of the new version whose content hash does not occur in the old version and every entry without a hash, and no other entry. A delta is refused as pointless exactly when it would contain all entries, and as mismatched unless name, distribution release and architecture agree and the release increases.",
 ["inputs"],"all pairs of file lists up to the bound (hashes, paths, directories), all metadata values",
 "One fixed pair of packages is tested.",["src/libeopkg/delta.go","src/libeopkg/util.go"],[m("produceInstallBall/copyInstallPartial/copyZipPartial","src/libeopkg/delta.go")],None,["produced archive"])
p("C26","Delta jobs build exactly the missing useful deltas, once",
 "A delta job for a package adds deltas exactly from each older available version to the newest one, reuses a delta already pooled, never rebuilds one that is listed or recorded as impossible, and records an impossible one permanently; a job that was interrupted or failed can be repeated; a job that asks for it publishes the index again when deltas were added. Delta names differ whenever name, releases, distribution release or architecture differ (the last two without dashes).",
 ["inputs","histories"],"every state within the bound, all releases, any subset of existing, pooled or impossible deltas",
 NOTEST,["src/ferryd/jobs/delta.go",R,PO,"src/libeopkg/util.go"],[m("DeltaJobHandler","src/ferryd/jobs/delta.go"),m("ComputeDeltaName","src/libeopkg/util.go")],None,["listing of deltas","pool"])
p("C27","At most one daemon owns a base directory, and the lock names it",
 "While one daemon holds the base directory lock no other process obtains it; a lock file left by a dead process, whatever its content, never prevents a start; and while the lock is held the lock file's content is exactly the owner's process ID. The lock is held until all jobs have stopped and the databases are closed.",
 ["inputs","histories"],"all prior lock file contents up to the bound, owner alive or dead, sequences of two contenders",
 "There is no lock test.",["src/ferryd/lockfile.go","src/ferryd/server.go"],[m("flock plus PID file","src/ferryd/lockfile.go")],None,["lock result","lock file content"])
p("C28","Malformed uploads and assets are rejected, never fatal",
 "No package archive, metadata, file list, asset file or manifest, however incomplete, makes loading, importing or indexing panic: it is either processed or refused with an error that leaves the repositories unchanged; a different package under the ID of a pooled one is never mistaken for it.",
 ["inputs"],"all combinations of missing or empty metadata parts, list lengths from zero up to the bound",
 "Tests load well-formed files only.",["src/libeopkg/package.go","src/libeopkg/main.go","src/libeopkg/metadata.go","src/libeopkg/components.go","src/libeopkg/groups.go"],[m("metadata validation on load","src/libeopkg/package.go")],None,["error result, absence of panic"])
p("C29","Storage locations are canonical, contained and collision-free",
 "A package's location depends only on its source name and file name, follows the documented n/nano and libr/libreoffice scheme in lower case, is the same relative path in the pool and in every repository, and two different package IDs never share a location. A source or repository name that is not a plain directory name is refused, so nothing is ever stored outside the pool and the repository's own directory.",
 ["inputs"],"all source names and IDs up to the bound",
 "Two fixed names are tested.",["src/libeopkg/metadata.go",PO,R],[m("GetPathComponent","src/libeopkg/metadata.go")],None,["path results"])
p("C30","Every job the daemon queues can be described, executed and reported",
 "Every kind of job that the daemon or a client request can enqueue, with the parameters it is enqueued with, is accepted by the job runner and shown by status; the status listing succeeds in every queue state that requests can produce.",
 ["inputs","histories"],"every job constructor with arbitrary arguments, any queue content up to the bound",
 "There is no job test.",[JM,ST,"src/ferryd/jobs"],[m("NewJobHandler dispatch",JM)],None,["status API","job outcome"])
p("C31","Concurrent workers never claim the same job or lose an update",
 "With any interleaving of concurrent workers and submitters on the job store, each job is claimed by exactly one worker, no submission is lost, and the surviving queue content equals that of some sequential order.",
 ["schedules"],"all interleavings of two to three threads at every lock and database operation, bounded number of operations",
 "No test runs workers concurrently.",[ST,LDB],[m("modMut/seqLock","src/ferryd/jobs/store.go")],None,["JobStore API"])
p("C32","Client import selects exactly the package files of a directory tree",
 "For any directory tree, the import command's file selection returns every regular file whose name ends in x86_64.eopkg exactly once, never a delta package or any other file, and reports an error if some path cannot be read.",
 ["inputs"],"all trees of bounded size with arbitrary names",
 "There is no client test.",["src/ferryctl/cmd/import.go"],[m("GetEopkgs recursion","src/ferryctl/cmd/import.go")],None,["returned list"])
p("C33","Jobs and requests that run at the same time leave the repositories consistent",
 "When a background delta job or the publication of an index runs at the same time as any other job or request, every operation has the outcome it has alone, and afterwards every repository lists exactly the versions it should, a delta that was built is listed once, reference counts, stored files and published versions agree with the lists, a deleted repository is gone, and no shared state was accessed by both at once. A listing request during any operation succeeds and shows repositories and reference counts that the operation passes through.",
 ["schedules"],"all interleavings with one preemption (some with two) at every lock, database and file operation, of each delta job with each other operation",
 NOTEST,[R,PO,"src/ferryd/jobs/delta.go","src/ferryd/core/api.go"],[m("repoLock, insertMut, pool counts",R),m("one delta job per package at a time","src/ferryd/jobs/delta.go")],None,["listings","pool","repository directories"])
p("C34","Every complete upload is noticed exactly once, and nothing else is",
 "While the daemon has its incoming directory open for watching, each time a file whose name ends in .tram is closed after writing or moved directly into the directory, exactly one upload job is queued for it; a manifest that is still being written, other files, directories, links, subdirectories, removals and attribute changes queue nothing. Watching goes on whatever events occur, including more than the kernel can report.",
 ["inputs","histories"],"all sequences of two file operations out of 9 and 6 kinds around one name with up to three arbitrary characters, before or after the daemon begins to serve, with or without an event overflow",
 "There is no daemon test.",["src/ferryd/monitor.go","src/ferryd/server.go","src/ferryd/jobs/transit_job.go"],[m("inotify event filter","src/ferryd/monitor.go")],None,["status listing","incoming directory","repositories"])
p("C35","The daemon stops and starts cleanly, and keeps what it accepted",
 "Closing the daemon never crashes, whatever clients do meanwhile; it removes its socket, and afterwards or after a crash the daemon can start again, replacing a socket nobody listens on but never one in use or another file. Every request that was accepted before or during the shutdown is executed exactly once, before it or after the next start; a refused one has no effect.",
 ["histories","schedules"],"any two requests before the shutdown (jobs done or not), an idle client connection, one more request at any step of the shutdown, five kinds of files at the socket's path",
 "There is no daemon test.",["src/ferryd/server.go","src/ferryd/main.go","src/ferryd/jobs/processor.go"],[m("Close order","src/ferryd/server.go"),m("Bind","src/ferryd/server.go")],None,["socket","status listing","repositories"])
p("C36","A request that cannot be queued is reported",
 "A request that queues a job is answered as accepted exactly when its job was queued, with the arguments of the request; when queueing fails the client gets an error that says why and nothing is queued. A job that queues follow-up jobs succeeds only if all of them were queued.",
 ["fault_sequences"],"each of the eleven requests that queue a job and the repository delta job, with no fault or one failing storage operation at any point",
 "There is no test of a handler.",["src/ferryd/handlers.go","src/ferryd/jobs/processor.go","src/ferryd/jobs/delta_repo.go"],[m("PushJob","src/ferryd/jobs/processor.go"),m("handlers","src/ferryd/handlers.go")],None,["HTTP status and body","status listing"])
p("C37","What packages and assets say reaches the index unchanged",
 "The index published for a repository describes each package with the metadata its archive declared (source, packager, summary and description in every language, licenses, part-of, dependencies and build dependencies, provides, conflicts, replaces, history, sizes) and the distribution, components and groups with the texts of the asset files, whatever characters they contain, also after a restart or a clone: texts are trimmed, an unspecified language is English, components and groups are sorted by name, and nothing else differs.",
 ["inputs"],"every part of the metadata with up to three elements, optional attributes and arbitrary short texts; markup characters in every text at once",
 "No test reads a published index.",["src/libeopkg/metadata.go","src/libeopkg/index.go","src/libeopkg/components.go","src/libeopkg/groups.go","src/libeopkg/distribution.go","src/libeopkg/package.go",R],[m("metadata types stored by gob and emitted as XML","src/libeopkg/metadata.go"),m("emitIndex",R)],None,["published index"])
p("C38","A command about a repository that does not exist fails without effect",
 "Every job that names a repository which does not exist, as its target or as its source, fails, and creating a repository, or cloning to one, under a name already in use fails; in both cases no repository, listing, published index, pooled file or reference count changes and no directory or record appears.",
 ["inputs"],"each of 14 kinds of jobs with arbitrary names up to three characters, including one just deleted",
 NOTEST,[R,"src/ferryd/core/api.go","src/ferryd/jobs"],[m("GetRepo and bucketExists checks","src/ferryd/core/api.go")],None,["job outcome","listings","directories"])
p("C39","A command that fails because the system fails says so, loses nothing and can be repeated",
 "When one database, file or compressor operation fails during a creation, import, delta inclusion, clone, pull, copy, removal, trim or deletion, the command either completes as if nothing had happened (a file it cannot delete may stay behind) or reports an error; every package and delta the command is not about stays listed, stored and counted, whatever is listed has its file, and repeating the command (after deleting a partial clone) leads to the result of an undisturbed one.",
 ["fault_sequences"],"one failing read or write of the database, of a file or by a compressor at any point of each command, in every state within the bound",
 NOTEST,[R,PO,"src/ferryd/core/api.go",LDB],[m("error results of database reads",R),m("GetPoolItem/RefPackage",PO)],None,["command result","listings","pool"])
p("C40","Listings show exactly what the daemon has",
 "The daemon reports each repository, each pooled file with its reference count, each unfinished job and each job of the two histories with its outcome, error and times exactly once. ferryctl shows each repository once in order of name, each pooled file once with its count, and the jobs (the first ten of each kind unless --all is given) with state, times and error, finished ones newest first and unfinished ones oldest first; it calls a listing empty only when it is, and not when the daemon failed to answer.",
 ["inputs","histories"],"any two requests and either reset against the daemon; any listing within the bound, and a failing daemon, against ferryctl",
 "There is no client or daemon test.",["src/ferryd/handlers.go","src/ferryctl/cmd/status.go","src/ferryctl/cmd/list_repos.go","src/ferryctl/cmd/list_pool.go","src/libferry/main.go","src/libferry/types.go"],[m("GetStatus/GetRepos/GetPoolItems","src/ferryd/handlers.go"),m("JobSet order and printing","src/ferryctl/cmd/status.go")],None,["standard output of ferryctl","HTTP replies"])
json_lines="\n".join(json.dumps(x) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
print(len(P))
