package vharness

import (
	"encoding/json"
	"strings"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/vharness/sym"
	_ "github.com/getsolus/ferryd/src/vharness/vmodel"
)

func init() {
	add("HReported", HReported)
}

// HReported: C40, what the daemon reports is exactly what it has: repositories,
// pooled files with any count, unfinished jobs of both queues and both
// histories.
func HReported() {
	w := newWorld()
	part := sym.Choose("part", 3)
	var repos []string
	if part == 0 {
		all := []string{"a", "B", "\u00e9<&>", "x \"y\"", "\u4e2d"}
		for i, n := 0, sym.Choose("repositories", 4); i < n; i++ {
			id := all[(i+sym.Choose("first", 3))%len(all)]
			if !has(repos, id) {
				must(w.M.CreateRepo(id))
				repos = append(repos, id)
			}
		}
	}
	w.close()
	var counts []uint64
	var items []string
	if part == 1 {
		ctx, err := core.NewContext(w.Base)
		must(err)
		db, err := libdb.Open(ctx.DbPath)
		must(err)
		for i, n := 0, sym.Choose("pooled", 4); i < n; i++ {
			c := sym.Uint64("references")
			sym.Assume(c < 1<<31)
			id := []string{"z-1.eopkg", "b+<1>.eopkg", "c-1-2.delta.eopkg"}[i]
			e := &core.PoolEntry{SchemaVersion: "1.0", Name: id, RefCount: c}
			must(db.Bucket([]byte(core.DatabaseBucketPool)).PutObject([]byte(id), e))
			items, counts = append(items, id), append(counts, c)
		}
		db.Close()
	}
	jw := &jobWorld{base: w.Base}
	var past [2][]*libferry.Job
	if part == 2 {
		jw.seed(0, sym.Choose("sequential", 3), 254, sym.Choose("claimed", 2) == 1)
		jw.seed(1, sym.Choose("background", 3), 254, sym.Choose("claimed", 2) == 1)
		db := jw.db()
		for h := range past {
			b := db.Bucket(historyBuckets[h])
			n := sym.Choose("records", 3)
			for i := 0; i < n; i++ {
				j := &libferry.Job{Description: sym.Chars("description", "ab<", 2), Failed: h == 1}
				j.Timing.Queued = time.Unix(1000+int64(i), 5).UTC()
				j.Timing.Begin = time.Unix(2000, 700).UTC()
				j.Timing.End = time.Unix(3000+int64(i), 0).UTC()
				if h == 1 {
					j.Error = sym.Chars("error", "ab&", 2)
				}
				must(b.PutObject(seqKey(uint64(i)), j))
				past[h] = append(past[h], j)
			}
			if n > 0 {
				must(b.Bucket(jobs.BucketRecord).PutObject(jobs.IndexRecordKey, &jobs.IndexRecord{Index: uint64(n - 1)}))
			}
		}
		db.Close()
	}
	d, err := NewDaemon(w.Base, w.Root+"/sock")
	must(err)
	must(d.Bind())
	h := Router(d)
	get := func(path string, v interface{}) {
		a := call(h, "GET", "/api/v1/"+path, nil)
		sym.Assert(a.code == 200, "what the daemon has can be listed")
		must(json.Unmarshal(a.body, v))
	}
	var more []string
	if part == 2 {
		for i := sym.Choose("new", 3); i > 0; i-- {
			id := "n" + string(rune('0'+i))
			sym.Assert(call(h, "GET", "/api/v1/index/repo/"+id, nil).code == 200, "requests are accepted")
			more = append(more, id)
		}
	}
	var rl libferry.RepoListingRequest
	get("list/repos", &rl)
	sym.Assert(sameSet(rl.Repository, repos), "every repository is listed once")
	var pl libferry.PoolListingRequest
	get("list/pool", &pl)
	sym.Assert(len(pl.Item) == len(items), "every pooled file is listed once")
	for i := range items {
		found := false
		for _, p := range pl.Item {
			if p.ID == items[i] {
				found = true
				sym.Assert(uint64(p.RefCount) == counts[i], "a pooled file is listed with its references")
			}
		}
		sym.Assert(found, "every pooled file is listed once")
	}
	var st libferry.StatusRequest
	get("status", &st)
	var want []string
	for q := range jw.q {
		for _, j := range jw.q[q] {
			want = append(want, j.name)
		}
	}
	sym.Assert(len(st.CurrentJobs) == len(want)+len(more), "every unfinished job is reported once")
	want = append(want, more...)
	for i := range want {
		x, err := jobs.NewJobHandler(jobs.NewIndexRepoJob(want[i]))
		must(err)
		n := 0
		for _, j := range st.CurrentJobs {
			if j.Description == x.Describe() {
				n++
				sym.Assert(j.Timing.Begin.IsZero() && j.Timing.End.IsZero() && !j.Failed && j.Error == "", "a waiting job is reported as one")
				sym.Assert(i >= len(want)-len(more) || j.Timing.Queued.Equal(time.Unix(1000, 0)), "a job is reported with the time it was queued")
				sym.Assert(!j.Timing.Queued.IsZero(), "a job is reported with the time it was queued")
			}
		}
		sym.Assert(n == 1, "every unfinished job is reported once")
	}
	for h, l := range []libferry.JobSet{st.CompletedJobs, st.FailedJobs} {
		sym.Assert(len(l) == len(past[h]), "every finished job is reported once, with its outcome")
		for i, j := range l {
			p := past[h][i]
			sym.Assert(j.Description == p.Description && j.Failed == p.Failed && j.Error == p.Error, "a finished job is reported unchanged")
			sym.Assert(j.Timing.Queued.Equal(p.Timing.Queued) && j.Timing.Begin.Equal(p.Timing.Begin) && j.Timing.End.Equal(p.Timing.End), "a finished job is reported with its times")
		}
	}
	sym.Assert(st.Version == libferry.Version && !strings.Contains(st.Version, " ") && !st.TimeStarted.IsZero(), "the daemon's version is reported")
	d.Close()
	sym.Reach("reported")
}
