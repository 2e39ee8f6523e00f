package vharness

import (
	"encoding/binary"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HQueue", HQueue)
	add("HRestart", HRestart)
	add("HQueueFault", HQueueFault)
	add("HConcurrent", HConcurrent)
	add("HManyJobs", HManyJobs)
}

// jobWorld is a job store with a reference model of its two queues.
type jobWorld struct {
	base  string
	store *jobs.JobStore
	n     int
	q     [2][]*refJob
}

// refJob is what the reference knows about an unfinished job.
type refJob struct {
	name    string
	claimed bool
	entry   *jobs.JobEntry
}

var queueBuckets = [2][]byte{jobs.BucketSequentialJobs, jobs.BucketAsyncJobs}

func newJobWorld() *jobWorld {
	w := &jobWorld{base: filepath.Join(sym.Root(), "base")}
	must(os.MkdirAll(w.base, 0755))
	return w
}

func (w *jobWorld) db() libdb.Database {
	ctx, err := core.NewContext(w.base)
	must(err)
	db, err := libdb.Open(ctx.JobDbPath)
	must(err)
	return db
}

func (w *jobWorld) open() {
	s, err := jobs.NewStore(w.base)
	must(err)
	w.store = s
}

func (w *jobWorld) name() string {
	w.n++
	return "r" + strconv.Itoa(w.n)
}

func seqKey(n uint64) []byte {
	k := make([]byte, 8)
	binary.BigEndian.PutUint64(k, n)
	return k
}

// firstKey is the sequence number of the oldest job: any, or in the quick
// crash and concurrency runs one where the number is about to need a second byte.
func firstKey(anyway bool) uint64 {
	if !anyway && sym.Tier() == 0 {
		return 254
	}
	first := sym.Uint64("first")
	sym.Assume(sym.And(first < 1<<64-16, sym.Or(first < 0x7c6275636b657400, first >= 0x7c6275636b657500)))
	return first
}

// seed writes a queue as an earlier run of the daemon left it: jobs at
// increasing sequence numbers, claimed or not.
func (w *jobWorld) seed(q, n int, first uint64, claimed bool) {
	db := w.db()
	b := db.Bucket(queueBuckets[q])
	for i := 0; i < n; i++ {
		j := jobs.NewIndexRepoJob(w.name())
		j.Timing.Queued = time.Unix(1000, 0).UTC()
		if i == 0 && claimed {
			j.Claimed = true
			j.Timing.Begin = time.Unix(2000, 0).UTC()
			j.Timing.End = time.Unix(3000, 0).UTC()
		}
		must(b.PutObject(seqKey(first+uint64(i)), j))
		w.q[q] = append(w.q[q], &refJob{name: j.Params[0]})
	}
	db.Close()
}

func (w *jobWorld) push(q int) {
	j := jobs.NewIndexRepoJob(w.name())
	var err error
	if q == 0 {
		err = w.store.PushSequentialJob(j)
	} else {
		err = w.store.PushAsyncJob(j)
	}
	sym.Assert(err == nil, "submitting a job succeeds")
	w.q[q] = append(w.q[q], &refJob{name: j.Params[0]})
}

func claimFrom(s *jobs.JobStore, q int) (*jobs.JobEntry, error) {
	if q == 0 {
		return s.ClaimSequentialJob()
	}
	return s.ClaimAsyncJob()
}

func retireFrom(s *jobs.JobStore, q int, j *jobs.JobEntry) error {
	if q == 0 {
		return s.RetireSequentialJob(j)
	}
	return s.RetireAsyncJob(j)
}

// isJob compares a handed out job with the reference.
func isJob(j *jobs.JobEntry, name string) bool {
	return j.Type == jobs.IndexRepo && len(j.Params) == 1 && j.Params[0] == name && j.Claimed
}

func (w *jobWorld) claim(q int) {
	j, err := claimFrom(w.store, q)
	for _, r := range w.q[q] {
		if r.claimed {
			continue
		}
		sym.Assert(err == nil && j != nil && isJob(j, r.name), "the oldest unclaimed job of the queue is handed out, with its parameters")
		sym.Assert(!j.Timing.Begin.IsZero() && j.Timing.End.IsZero() && !j.Timing.Queued.IsZero(), "a handed out job has its times set")
		r.claimed, r.entry = true, j
		return
	}
	sym.Assert(err == jobs.ErrEmptyQueue && j == nil, "a queue with nothing to hand out says so")
}

func (w *jobWorld) retire(q, i int) {
	r := w.q[q][i]
	sym.Assert(retireFrom(w.store, q, r.entry) == nil, "retiring a claimed job succeeds")
	w.q[q] = append(w.q[q][:i:i], w.q[q][i+1:]...)
}

// step is any operation on the queues.
func (w *jobWorld) step() {
	q := sym.Choose("queue", 2)
	switch sym.Choose("step", 3) {
	case 0:
		w.push(q)
	case 1:
		w.claim(q)
	case 2:
		var c []int
		for i, r := range w.q[q] {
			if r.claimed {
				c = append(c, i)
			}
		}
		if len(c) > 0 {
			w.retire(q, c[sym.Choose("which", len(c))])
		}
	}
}

// active compares the status listing with the reference.
func (w *jobWorld) active(fresh bool) {
	l, err := w.store.ActiveJobs()
	sym.Assert(err == nil, "the status of the queues can be read")
	var want []*refJob
	want = append(append(want, w.q[0]...), w.q[1]...)
	sym.Assert(len(l) == len(want), "status shows every unfinished job once")
	for i := range l {
		h, err := jobs.NewJobHandler(jobs.NewIndexRepoJob(want[i].name))
		must(err)
		sym.Assert(l[i].Description == h.Describe(), "status shows the unfinished jobs in order")
		if fresh {
			sym.Assert(l[i].Timing.Begin.IsZero() && l[i].Timing.End.IsZero(), "after a restart no job counts as begun")
		} else {
			sym.Assert(l[i].Timing.Begin.IsZero() == !want[i].claimed, "status shows which jobs have begun")
		}
		sym.Assert(!l[i].Timing.Queued.IsZero(), "status shows when a job was queued")
	}
}

// drain claims everything that is left, in order.
func (w *jobWorld) drain() {
	for q := 0; q < 2; q++ {
		n := len(w.q[q]) + 1
		for i := 0; i < n; i++ {
			w.claim(q)
		}
	}
	w.active(false)
}

func (w *jobWorld) unclaim() {
	for q := range w.q {
		for _, r := range w.q[q] {
			r.claimed, r.entry = false, nil
		}
	}
}

// anyQueues are the queues an earlier run left, at any sequence numbers.
func anyQueues(first uint64) *jobWorld {
	w := newJobWorld()
	q := sym.Choose("old queue", 2)
	w.seed(q, sym.Choose("old jobs", 3), first, sym.Choose("old claim", 2) == 1)
	if sym.Choose("other queue", 2) == 1 {
		w.seed(1-q, 1, 255, true)
	}
	return w
}

// HQueue: C19, any sequence of operations on queues an earlier run left.
func HQueue() {
	w := anyQueues(firstKey(true))
	w.open()
	w.active(true)
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	for i := 0; i < n; i++ {
		w.step()
	}
	w.active(false)
	w.drain()
	w.store.Close()
	sym.Reach("drained")
}

// settle decides whether a job whose submission or retirement was interrupted
// is still queued.
func (w *jobWorld) settle(q int, name string) {
	l, err := w.store.ActiveJobs()
	sym.Assert(err == nil, "the status of the queues can be read")
	h, err := jobs.NewJobHandler(jobs.NewIndexRepoJob(name))
	must(err)
	for _, j := range l {
		if j.Description == h.Describe() {
			return
		}
	}
	for i, r := range w.q[q] {
		if r.name == name {
			w.q[q] = append(w.q[q][:i:i], w.q[q][i+1:]...)
			return
		}
	}
}

// HRestart: C20, a crash at any operation of the job store, and another one
// while starting again.
func HRestart() {
	w := anyQueues(firstKey(false))
	q := sym.Choose("queue", 2)
	before, during := sym.Choose("before", 2), sym.Choose("during", 4)
	open := "" // the job whose submission or retirement is under way
	crashed := sym.Crash(func() {
		w.open()
		if before == 1 {
			w.claim(q)
		}
		switch during {
		case 0:
			w.n++
			open = "new"
			w.q[q] = append(w.q[q], &refJob{name: open})
			j := jobs.NewIndexRepoJob(open)
			if q == 0 {
				must(w.store.PushSequentialJob(j))
			} else {
				must(w.store.PushAsyncJob(j))
			}
			open = ""
		case 1:
			w.claim(q)
			w.claim(1 - q)
		case 2:
			if before == 1 && len(w.q[q]) > 0 {
				open = w.q[q][0].name
				w.retire(q, 0)
				open = ""
			}
		case 3:
			w.store.Close()
			w.store = nil
		}
	})
	if crashed {
		sym.Reach("crashed")
	} else if w.store != nil {
		w.store.Close()
	}
	w.store = nil
	w.unclaim()
	if sym.Choose("again", 2) == 1 {
		if sym.Crash(func() { w.open() }) {
			sym.Reach("crashed again")
		} else {
			w.store.Close()
		}
		w.store = nil
	}
	w.open()
	if open != "" {
		w.settle(q, open)
	}
	w.active(true)
	w.push(q)
	w.drain()
	w.store.Close()
	sym.Reach("restarted")
}

// HQueueFault: C19, C20, an operation of the job store during which a storage
// operation fails.
func HQueueFault() {
	w := anyQueues(firstKey(false))
	q := sym.Choose("queue", 2)
	if sym.Choose("opening", 2) == 1 {
		var s *jobs.JobStore
		var err error
		hit := sym.Fault(func() { s, err = jobs.NewStore(w.base) })
		if err != nil {
			sym.Assert(hit && s == nil, "opening the queues succeeds")
			sym.Reach("not opened")
			w.open()
		} else {
			w.store = s
		}
		w.active(true)
		w.drain()
		w.store.Close()
		return
	}
	w.open()
	if sym.Choose("before", 2) == 1 {
		w.claim(q)
	}
	switch sym.Choose("during", 3) {
	case 0:
		j := jobs.NewIndexRepoJob(w.name())
		var err error
		hit := sym.Fault(func() {
			if q == 0 {
				err = w.store.PushSequentialJob(j)
			} else {
				err = w.store.PushAsyncJob(j)
			}
		})
		if err == nil {
			w.q[q] = append(w.q[q], &refJob{name: j.Params[0]})
		} else {
			sym.Assert(hit, "submitting a job succeeds")
			sym.Reach("not queued")
		}
	case 1:
		var j *jobs.JobEntry
		var err error
		hit := sym.Fault(func() { j, err = claimFrom(w.store, q) })
		if err != nil && err != jobs.ErrEmptyQueue {
			sym.Assert(hit && j == nil, "claiming succeeds or finds nothing")
			sym.Reach("not claimed")
			break
		}
		var next *refJob
		for _, r := range w.q[q] {
			if !r.claimed {
				next = r
				break
			}
		}
		sym.Assert((next == nil) == (err != nil), "a queue is empty exactly when it says so")
		if next != nil {
			sym.Assert(isJob(j, next.name), "the oldest unclaimed job of the queue is handed out, with its parameters")
			next.claimed, next.entry = true, j
		}
	case 2:
		if len(w.q[q]) == 0 || !w.q[q][0].claimed {
			return
		}
		var err error
		hit := sym.Fault(func() { err = retireFrom(w.store, q, w.q[q][0].entry) })
		if err == nil {
			w.q[q] = w.q[q][1:]
		} else {
			sym.Assert(hit, "retiring a claimed job succeeds")
			sym.Reach("not retired")
		}
	}
	w.active(false)
	if sym.Choose("restart", 2) == 1 {
		w.store.Close()
		w.unclaim()
		w.open()
		w.active(true)
	}
	w.push(q)
	w.drain()
	w.store.Close()
	sym.Reach("drained")
}

// HConcurrent: C31, two workers and a submitter (or two) on the store.
func HConcurrent() {
	w := newJobWorld()
	q := sym.Choose("queue", 2)
	old := sym.Choose("old jobs", 3)
	plan := sym.Choose("plan", 4)
	first := firstKey(old == 1 && plan%2 == 0)
	w.seed(q, old, first, sym.Choose("old claim", 2) == 1)
	w.open()
	var got [3][]*jobs.JobEntry
	var pushed [3][]string
	worker := func(i int, retire bool) func() {
		return func() {
			j, err := claimFrom(w.store, q)
			if err == jobs.ErrEmptyQueue {
				return
			}
			sym.Assert(err == nil && j != nil, "claiming succeeds or finds nothing")
			got[i] = append(got[i], j)
			if retire {
				sym.Assert(retireFrom(w.store, q, j) == nil, "retiring succeeds")
			}
		}
	}
	submitter := func(i, n int) func() {
		return func() {
			for k := 0; k < n; k++ {
				name := "s" + strconv.Itoa(i) + strconv.Itoa(k)
				j := jobs.NewIndexRepoJob(name)
				if q == 0 {
					must(w.store.PushSequentialJob(j))
				} else {
					must(w.store.PushAsyncJob(j))
				}
				pushed[i] = append(pushed[i], name)
			}
		}
	}
	pre := 2
	if sym.Tier() > 0 {
		pre = 3
	}
	retired := false
	switch plan {
	case 0:
		sym.Par(pre, worker(0, false), worker(1, false))
	case 1:
		sym.Par(pre, submitter(0, 1), submitter(1, 2))
	case 2:
		sym.Par(pre, worker(0, true), submitter(1, 2))
		retired = true
	case 3:
		sym.Par(pre, worker(0, true), worker(1, true), submitter(2, 1))
		retired = true
	}
	// every job was claimed at most once, the oldest first
	var claims []string
	for i := range got {
		for _, j := range got[i] {
			name := j.Params[0]
			for _, c := range claims {
				sym.Assert(c != name, "no job is handed out twice")
			}
			claims = append(claims, name)
		}
	}
	has := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	var all []string
	for _, r := range w.q[q] {
		all = append(all, r.name)
	}
	for i, r := range w.q[q] {
		if i+1 < len(w.q[q]) && has(claims, w.q[q][i+1].name) {
			sym.Assert(has(claims, r.name), "older jobs are handed out first")
		}
	}
	for i := range pushed {
		all = append(all, pushed[i]...)
	}
	for _, c := range claims {
		sym.Assert(has(all, c), "only submitted jobs are handed out")
	}
	if plan == 0 {
		n := 2
		if old < 2 {
			n = old
		}
		sym.Assert(len(claims) == n, "workers get every job there is")
	}
	// what is left: the unretired jobs, in an order that keeps each
	// submitter's own order, each handed out once more after a restart
	w.store.Close()
	w.open()
	var left []string
	for range all {
		j, err := claimFrom(w.store, q)
		if err == jobs.ErrEmptyQueue {
			break
		}
		sym.Assert(err == nil, "claiming succeeds or finds nothing")
		sym.Assert(!has(left, j.Params[0]), "no job is in the queue twice")
		left = append(left, j.Params[0])
	}
	_, err := claimFrom(w.store, q)
	sym.Assert(err == jobs.ErrEmptyQueue, "nothing else is queued")
	for _, n := range all {
		gone := retired && has(claims, n)
		sym.Assert(has(left, n) == !gone, "exactly the retired jobs have left the queue")
	}
	pos := func(s string) int {
		for i, x := range left {
			if x == s {
				return i
			}
		}
		return -1
	}
	for i := range pushed {
		for k := range pushed[i] {
			for m := range w.q[q] {
				a, b := pos(w.q[q][m].name), pos(pushed[i][k])
				sym.Assert(a < 0 || b < 0 || a < b, "earlier submissions stay ahead")
			}
			if k > 0 {
				a, b := pos(pushed[i][k-1]), pos(pushed[i][k])
				sym.Assert(a < 0 || b < 0 || a < b, "a submitter's jobs stay in order")
			}
		}
	}
	w.store.Close()
	sym.Reach("done")
}

// HManyJobs: C19, C20, queues with a lot of jobs, any of which are claimed when
// the daemon is restarted.
func HManyJobs() {
	w := newJobWorld()
	k := []int{11, 17, 33}[sym.Choose("number", 3)]
	old := sym.Choose("old", 2) * k
	w.seed(0, old, []uint64{0, 245, 65520, 1<<32 - 10}[sym.Choose("first", 4)], false)
	w.open()
	for i := 0; i < k; i++ {
		w.push(i % 2)
	}
	claims := []int{0, 1, 9, 10, k/2 + old}[sym.Choose("claims", 5)]
	if claims > k/2 {
		claims = k / 2
	}
	for i := 0; i < claims; i++ {
		w.claim(0)
		w.claim(1)
	}
	w.active(false)
	if sym.Choose("restart", 2) == 1 {
		w.store.Close()
		w.open()
		w.unclaim()
		w.active(true)
	} else if claims > 0 {
		w.retire(sym.Choose("queue", 2), claims-1)
	}
	w.drain()
	w.store.Close()
	sym.Reach("drained")
}
