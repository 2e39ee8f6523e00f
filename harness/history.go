package vharness

import (
	"strconv"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HHistory", HHistory)
	add("HRing", HRing)
	add("HRetireCrash", HRetireCrash)
	add("HRetireFault", HRetireFault)
	add("HResetCrash", HResetCrash)
}

var historyBuckets = [2][]byte{jobs.BucketSuccessJobs, jobs.BucketFailJobs}

var historyNames = [2]string{"old-success-", "old-failure-"}

// oldRecord names the record an earlier run left in slot i.
func oldRecord(h, i int) string { return historyNames[h] + strconv.Itoa(i) }

// seedHistory writes the history an earlier run left: n records, the last of
// them in slot last (0 to n-1 unless the history is full).
func (w *jobWorld) seedHistory(h, n, last int) {
	if n == 0 {
		return
	}
	db := w.db()
	b := db.Bucket(historyBuckets[h])
	for i := 0; i < n; i++ {
		j := &libferry.Job{Description: oldRecord(h, i), Failed: h == 1}
		if h == 1 {
			j.Error = "old error"
		}
		must(b.PutObject(seqKey(uint64(i)), j))
	}
	must(b.Bucket(jobs.BucketRecord).PutObject(jobs.IndexRecordKey, &jobs.IndexRecord{Index: uint64(last)}))
	db.Close()
}

func history(s *jobs.JobStore, h int) []*libferry.Job {
	var l []*libferry.Job
	var err error
	if h == 0 {
		l, err = s.CompletedJobs()
	} else {
		l, err = s.FailedJobs()
	}
	sym.Assert(err == nil, "the history can be read")
	return l
}

// survives says whether the record of slot i is still there after k more
// records, when the history held n with the last one in slot last.
func survives(n, last, i, k int) bool {
	if n < jobs.MaxJobsStored {
		if n+k <= jobs.MaxJobsStored {
			return true
		}
		return i >= n+k-jobs.MaxJobsStored
	}
	age := i - last - 1
	age = sym.Ite(age < 0, age+jobs.MaxJobsStored, age)
	return age >= k
}

// checkHistory compares one history with the old records and the new ones.
func checkHistory(s *jobs.JobStore, h, n, last int, fresh []string) {
	l := history(s, h)
	sym.Assert(len(l) <= jobs.MaxJobsStored, "a history holds at most a hundred records")
	want := n + len(fresh)
	if want > jobs.MaxJobsStored {
		want = jobs.MaxJobsStored
	}
	sym.Assert(len(l) == want, "every finished job is in the history of its outcome, and no other")
	seen := map[string]int{}
	for _, j := range l {
		seen[j.Description]++
		sym.Assert(j.Failed == (h == 1) && (j.Error != "") == (h == 1), "a record tells success from failure")
	}
	for i := 0; i < n; i++ {
		sym.Assert((seen[oldRecord(h, i)] == 1) == survives(n, last, i, len(fresh)), "the oldest records are overwritten first")
	}
	for _, f := range fresh {
		sym.Assert(seen[f] >= 1, "the most recent records are in the history")
	}
}

// HRing: C21 for the history ring alone, any position of the last record.
func HRing() {
	w := newJobWorld()
	var n [2]int
	h := 0 // the API alone cannot make a job fail
	n[h] = []int{0, 1, 2, 98, 99, 100}[sym.Choose("records", 6)]
	last := n[h] - 1
	if n[h] == jobs.MaxJobsStored {
		last = sym.Concrete(sym.Int("last", 0, jobs.MaxJobsStored-1))
	}
	w.seedHistory(h, n[h], last)
	w.open()
	k := 1 + sym.Choose("jobs", 3)
	for i := 0; i < k; i++ {
		q := sym.Choose("queue", 2)
		w.push(q)
		w.claim(q)
		w.retire(q, 0)
	}
	if sym.Choose("restart", 2) == 1 {
		w.store.Close()
		w.open()
	}
	l := history(w.store, h)
	sym.Assert(len(l) <= jobs.MaxJobsStored, "a history holds at most a hundred records")
	fresh := 0
	seen := map[string]int{}
	for _, j := range l {
		if j.Description == "" {
			fresh++
		}
		seen[j.Description]++
	}
	sym.Assert(fresh == k, "every finished job is recorded once, and stays while fewer than a hundred follow")
	for i := 0; i < n[h]; i++ {
		sym.Assert((seen[oldRecord(h, i)] == 1) == survives(n[h], last, i, k), "the oldest records are overwritten first")
	}
	sym.Assert(len(history(w.store, 1-h)) == 0, "no record appears in the other history")
	if n[h] == jobs.MaxJobsStored {
		sym.Reach("full")
	}
	w.store.Close()
	sym.Reach("recorded")
}

// HHistory: C21 for jobs run by the daemon's workers.
func HHistory() {
	w := newJobWorld()
	var n, last [2]int
	for h := range n {
		n[h] = []int{0, 1, 99, 100}[sym.Choose("records", 4)]
		last[h] = n[h] - 1
		if n[h] == jobs.MaxJobsStored && h == 1 {
			last[h] = []int{0, 50, 98, 99}[sym.Choose("last", 4)]
		}
		w.seedHistory(h, n[h], last[h])
	}
	m, err := core.NewManager(w.base)
	must(err)
	w.open()
	p := jobs.NewProcessor(m, w.store, 2)
	p.Begin()
	var fresh [2][]string
	failed := map[string]string{}
	k := 2
	for i := 0; i < k; i++ {
		h := sym.Choose("outcome", 2)
		var j *jobs.JobEntry
		name := "r" + strconv.Itoa(i)
		if h == 0 {
			j = jobs.NewCreateRepoJob(name)
		} else {
			j = jobs.NewDeleteRepoJob(name)
		}
		hnd, err := jobs.NewJobHandler(j)
		must(err)
		failed[hnd.Describe()] = name
		fresh[h] = append(fresh[h], hnd.Describe())
		p.PushJob(j)
	}
	sym.Assert(sym.Wait(time.Minute, func() bool {
		l, err := w.store.ActiveJobs()
		return err == nil && len(l) == 0
	}), "every submitted job is finished")
	p.Close()
	for h := range n {
		checkHistory(w.store, h, n[h], last[h], fresh[h])
		for _, j := range history(w.store, h) {
			for _, f := range fresh[h] {
				if j.Description != f {
					continue
				}
				t := j.Timing
				sym.Assert(!t.Queued.IsZero() && !t.Begin.Before(t.Queued) && !t.End.Before(t.Begin), "a record carries the times of its job")
				if h == 1 {
					want := m.DeleteRepo(failed[f])
					sym.Assert(want != nil && j.Error == want.Error(), "a record carries the error of its job")
				}
			}
		}
	}
	h := sym.Choose("reset", 3)
	if h < 2 {
		if h == 0 {
			err = w.store.ResetCompleted()
		} else {
			err = w.store.ResetFailed()
		}
		sym.Assert(err == nil, "resetting a history succeeds")
		sym.Assert(len(history(w.store, h)) == 0, "resetting a history empties it")
		checkHistory(w.store, 1-h, n[1-h], last[1-h], fresh[1-h])
		if h == 0 {
			w.push(1)
			w.claim(1)
			w.retire(1, 0)
			sym.Assert(len(history(w.store, 0)) == 1, "a history goes on after a reset")
		}
		sym.Reach("reset")
	}
	w.store.Close()
	m.Close()
	sym.Reach("done")
}

// retireScene is a store with a history, a finished job and maybe another one.
func retireScene() (w *jobWorld, q, h, n, last int, queued int) {
	w = newJobWorld()
	q = sym.Choose("queue", 2)
	h = 0 // the API alone cannot make a job fail
	n = []int{0, 1, 99, 100}[sym.Choose("records", 4)]
	last = n - 1
	if n == jobs.MaxJobsStored {
		last = sym.Concrete(sym.Int("last", 97, jobs.MaxJobsStored-1))
	}
	w.seedHistory(h, n, last)
	w.open()
	queued = 1 + sym.Choose("others", 2)
	for i := 0; i < queued; i++ {
		w.push(q)
	}
	w.claim(q)
	return
}

// moved checks that the finished job is either queued or recorded, once.
func (w *jobWorld) moved(h, n, last, queued int) (recorded bool) {
	l, err := w.store.ActiveJobs()
	sym.Assert(err == nil, "the queues can be read")
	fresh := 0
	seen := map[string]int{}
	for _, j := range history(w.store, h) {
		seen[j.Description]++
		if j.Description == "" {
			fresh++
		}
	}
	for i := 0; i < n; i++ {
		sym.Assert((seen[oldRecord(h, i)] == 1) == survives(n, last, i, fresh), "the oldest records are overwritten first")
	}
	sym.Assert(len(history(w.store, 1-h)) == 0, "no record appears in the other history")
	sym.Assert(len(l) == queued || len(l) == queued-1, "the other jobs stay queued")
	recorded = fresh == 1
	sym.Assert(fresh <= 1 && recorded == (len(l) == queued-1), "a finished job is either still queued or in its history, never lost or both")
	return recorded
}

// HRetireCrash: C21, a crash while a job is moved to the history.
func HRetireCrash() {
	w, q, h, n, last, queued := retireScene()
	crashed := sym.Crash(func() {
		sym.Assert(retireFrom(w.store, q, w.q[q][0].entry) == nil, "retiring succeeds")
	})
	if !crashed {
		w.store.Close()
	}
	w.open()
	recorded := w.moved(h, n, last, queued)
	if !crashed {
		sym.Assert(recorded, "a retired job is in its history")
	} else if recorded {
		sym.Reach("recorded")
	} else {
		sym.Reach("queued")
	}
	w.store.Close()
}

// HRetireFault: C21, a storage operation fails while a job is moved to the history.
func HRetireFault() {
	w, q, h, n, last, queued := retireScene()
	var err error
	hit := sym.Fault(func() { err = retireFrom(w.store, q, w.q[q][0].entry) })
	sym.Assert(err == nil || hit, "retiring succeeds")
	recorded := w.moved(h, n, last, queued)
	sym.Assert(recorded == (err == nil), "a job that could not be retired says so")
	if hit {
		sym.Reach("failed")
	}
	w.store.Close()
}

// HResetCrash: C21, a crash while a history is emptied.
func HResetCrash() {
	w := newJobWorld()
	h := sym.Choose("history", 2)
	n := []int{1, 99, 100}[sym.Choose("records", 3)]
	last := n - 1
	if n == jobs.MaxJobsStored {
		last = 50
	}
	w.seedHistory(h, n, last)
	w.seedHistory(1-h, 1, 0)
	w.open()
	crashed := sym.Crash(func() {
		if h == 0 {
			sym.Assert(w.store.ResetCompleted() == nil, "resetting a history succeeds")
		} else {
			sym.Assert(w.store.ResetFailed() == nil, "resetting a history succeeds")
		}
	})
	if !crashed {
		w.store.Close()
	}
	w.open()
	got := len(history(w.store, h))
	sym.Assert(got == n || got == 0, "a history is reset as a whole")
	checkHistory(w.store, 1-h, 1, 0, nil)
	if got == 0 {
		n, last = 0, -1
	}
	w.push(0)
	w.claim(0)
	w.retire(0, 0)
	if h == 0 {
		seen := map[string]int{}
		for _, j := range history(w.store, h) {
			seen[j.Description]++
		}
		sym.Assert(seen[""] == 1, "a history goes on after a reset")
		for i := 0; i < n; i++ {
			sym.Assert((seen[oldRecord(h, i)] == 1) == survives(n, last, i, 1), "the oldest records are overwritten first")
		}
	}
	if got > 0 {
		sym.Reach("kept")
	} else {
		sym.Reach("emptied")
	}
	w.store.Close()
}
