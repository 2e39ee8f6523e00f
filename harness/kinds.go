package vharness

import (
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() { add("HKinds", HKinds) }

// anyJob is any job the daemon enqueues, with any parameters.
func anyJob(kind int, r, s string, n int, b bool) *jobs.JobEntry {
	switch kind {
	case 0:
		return jobs.NewBulkAddJob(r, []string{"/nonexistent/" + s})
	case 1:
		return jobs.NewCopySourceJob(r, s, s, n, b)
	case 2:
		return jobs.NewCloneRepoJob(r, s, b)
	case 3:
		return jobs.NewCreateRepoJob(r)
	case 4:
		return jobs.NewDeleteRepoJob(r)
	case 5:
		return jobs.NewDeltaRepoJob(r)
	case 6:
		return jobs.NewIndexRepoJob(r)
	case 7:
		return jobs.NewPullRepoJob(r, s)
	case 8:
		return jobs.NewRemoveSourceJob(r, s, n)
	case 9:
		return jobs.NewTransitJob("/nonexistent/" + s)
	case 10:
		return jobs.NewTrimObsoleteJob(r)
	case 11:
		return jobs.NewTrimPackagesJob(r, n)
	case 12:
		return jobs.NewDeltaJob(r, s)
	case 13:
		return jobs.NewDeltaIndexJob(r, s)
	case 14:
		return jobs.NewBulkAddJob(r, nil)
	}
	return nil
}

const jobKinds = 15

// HKinds: C30, every kind of job is shown by status in every queue state and
// is run by the daemon.
func HKinds() {
	w := newJobWorld()
	m, err := core.NewManager(w.base)
	must(err)
	must(m.CreateRepo("a"))
	w.open()
	kind := sym.Choose("kind", jobKinds)
	name := []string{"a", "b"}[sym.Choose("repo", 2)]
	arg := sym.Chars("arg", "ab/ ", 1)
	n := sym.Int("number", -1<<40, 1<<40)
	j := anyJob(kind, name, arg, n, sym.Choose("flag", 2) == 1)
	fits := true
	switch kind {
	case 1, 8, 11:
		fits = n >= -1<<31 && n < 1<<31
	}
	p := jobs.NewProcessor(m, w.store, 2)
	p.PushJob(j)
	// with another job in front of or behind it
	p.PushJob(jobs.NewIndexRepoJob("a"))
	l, err := w.store.ActiveJobs()
	sym.Assert(err == nil, "status can be shown in every state of the queues")
	sym.Assert(len(l) == 2 && l[0].Description != "" && l[1].Description != "", "status describes every queued job")
	hnd, herr := jobs.NewJobHandler(j)
	if fits && kind != 14 {
		sym.Assert(herr == nil && hnd.Describe() != "", "every job that can be queued is accepted and described")
	} else if !fits {
		sym.Assert(herr != nil, "parameters that cannot be represented are an error")
	}
	q := 0
	if kind == 12 || kind == 13 {
		q = 1
	}
	e, err := claimFrom(w.store, q)
	sym.Assert(err == nil && e.Type == j.Type, "a queued job can be claimed")
	w.store.Close()
	w.open()
	p = jobs.NewProcessor(m, w.store, 2)
	p.Begin()
	sym.Assert(sym.Wait(time.Minute, func() bool {
		l, err := w.store.ActiveJobs()
		sym.Assert(err == nil, "status can be shown in every state of the queues")
		return len(l) == 0
	}), "every submitted job is finished")
	p.Close()
	done, failed := history(w.store, 0), history(w.store, 1)
	sym.Assert(len(done)+len(failed) == 2, "every job is in the history once")
	for _, l := range done {
		sym.Assert(l.Description != "", "history describes every job")
	}
	for _, l := range failed {
		sym.Assert(l.Description != "" && l.Error != "", "history describes every job and its error")
	}
	if !fits {
		sym.Assert(len(failed) >= 1, "numbers that cannot be represented are reported as a failure")
		sym.Reach("unrepresentable")
	}
	w.store.Close()
	m.Close()
	sym.Reach("done")
}
