package vharness

import (
	"errors"
	"path/filepath"
	"sort"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HBuckets", HBuckets)
	add("HBucketNames", HBucketNames)
	add("HSequences", HSequences)
	add("HStore", HStore)
	add("HStoreFault", HStoreFault)
}

// record is what the harness stores.
type record struct {
	Name string
	N    int
	L    []string
}

func openDB() libdb.Database {
	db, err := libdb.Open(filepath.Join(sym.Root(), "db"))
	must(err)
	return db
}

func bucketAt(db libdb.Database, path []string) libdb.Database {
	for _, p := range path {
		db = db.Bucket([]byte(p))
	}
	return db
}

type kvPair struct {
	k string
	r record
}

// pairs iterates a bucket.
func pairs(b libdb.Database) []kvPair {
	var out []kvPair
	err := b.ForEach(func(k, v []byte) error {
		p := kvPair{k: string(k)}
		if err := b.Decode(v, &p.r); err != nil {
			return err
		}
		out = append(out, p)
		return nil
	})
	sym.Assert(err == nil, "iterating a bucket succeeds")
	return out
}

func sameRecord(a, b record) bool {
	if len(a.L) != len(b.L) {
		return false
	}
	ok := sym.And(a.Name == b.Name, a.N == b.N)
	for i := range a.L {
		ok = sym.And(ok, a.L[i] == b.L[i])
	}
	return ok
}

// holds asserts that a bucket holds exactly the given pair (or nothing).
func holds(b libdb.Database, k string, r *record, what string) {
	got := pairs(b)
	ok, err := b.HasObject([]byte(k))
	var g record
	gerr := b.GetObject([]byte(k), &g)
	if r == nil {
		sym.Assert(len(got) == 0, what+": iterating shows no key of another bucket")
		sym.Assert(err == nil && !ok && gerr != nil, what+": no key of another bucket can be read")
		return
	}
	sym.Assert(len(got) == 1 && got[0].k == k && sameRecord(got[0].r, *r), what+": iterating shows exactly the bucket's own key and value")
	sym.Assert(err == nil && ok, what+": the bucket's own key is there")
	sym.Assert(gerr == nil && sameRecord(g, *r), what+": the bucket's own value reads back")
}

// isolated runs puts, reads, iteration, sequences and deletion on two buckets.
func isolated(db libdb.Database, p, q []string, k, l string) {
	b, c := bucketAt(db, p), bucketAt(db, q)
	r1, r2 := record{"one", sym.Int("v1", 0, 9), []string{"x"}}, record{"two", 7, nil}
	holds(b, k, nil, "empty")
	if sym.Choose("batch", 2) == 1 {
		must(db.Update(func(tx libdb.Database) error { return bucketAt(tx, p).PutObject([]byte(k), &r1) }))
	} else {
		must(b.PutObject([]byte(k), &r1))
	}
	holds(c, l, nil, "after a write to another bucket")
	if len(k) == 8 {
		s, err := c.NextSequence()
		must(err)
		sym.Assert(string(s) == "\x00\x00\x00\x00\x00\x00\x00\x00", "the sequence of an empty bucket starts at zero whatever other buckets hold")
	}
	must(c.PutObject([]byte(l), &r2))
	holds(b, k, &r1, "after a write to another bucket")
	holds(c, l, &r2, "after its own write")
	if sym.Choose("delete", 2) == 1 {
		must(db.Update(func(tx libdb.Database) error { return bucketAt(tx, q).DeleteObject([]byte(l)) }))
	} else {
		must(c.DeleteObject([]byte(l)))
	}
	holds(b, k, &r1, "after a deletion in another bucket")
	holds(c, l, nil, "after its own deletion")
	must(b.DeleteObject([]byte(k)))
	holds(b, k, nil, "after its own deletion")
	sym.Reach("isolated")
}

// anyPath is a bucket path of any depth from 0 to 2 with any short names.
func anyPath(label string) []string {
	var out []string
	n := sym.Choose(label+" depth", 3)
	for i := 0; i < n; i++ {
		out = append(out, sym.Chars(label+string(rune('0'+i)), "ab-", 1+sym.Choose(label+" length", 2)))
	}
	return out
}

func samePath(p, q []string) bool {
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

// HBuckets: C17 for any two different buckets.
func HBuckets() {
	p, q := anyPath("p"), anyPath("q")
	sym.Assume(!samePath(p, q))
	k := sym.Chars("k", "ab-", 1)
	l := sym.Chars("l", "ab-", 1)
	joined := func(p []string, k string) string { return strings.Join(append(append([]string{}, p...), k), "-") }
	// Paths of one depth whose dash-joined forms run into each other share
	// keys: that is judged apart.
	ambiguous := len(p) == len(q) && (strings.HasPrefix(joined(p, k), joined(q, "")) || strings.HasPrefix(joined(q, l), joined(p, "")) || strings.HasPrefix(joined(p, k), joined(q, l)))
	if ambiguous {
		db := openDB()
		b, c := bucketAt(db, p), bucketAt(db, q)
		must(b.PutObject([]byte(k), &record{Name: "one"}))
		sym.Assert(len(pairs(c)) == 0, "buckets whose dash-joined paths run into each other do not share keys")
		db.Close()
		return
	}
	db := openDB()
	defer db.Close()
	isolated(db, p, q, k, l)
}

// HBucketNames: C17 for the buckets the daemon uses.
func HBucketNames() {
	db := openDB()
	defer db.Close()
	repo := func(l string) string {
		return sym.Chars(l, "xy", 1) + []string{"", "-", "-y", "s", "-packages", "-volatile", "-package", "-package-x"}[sym.Choose(l+" suffix", 8)]
	}
	s := func(b ...[]byte) (p []string) {
		for _, x := range b {
			p = append(p, string(x))
		}
		return
	}
	rp := core.DatabaseBucketRepo
	pk := []string{"x", "package", "package-x", "xy-1-1-x86_64.eopkg"}[sym.Choose("key", 4)]
	k5, k1 := "\x00\x00\x00\x00\x00\x00\x00\x05", "\x00\x00\x00\x00\x00\x00\x00\x01"
	switch sym.Choose("pair", 8) {
	case 0:
		isolated(db, []string{core.DatabaseBucketPool}, []string{core.DatabaseBucketDeltaSkip}, pk, pk)
	case 1:
		isolated(db, []string{rp}, []string{core.DatabaseBucketPool}, repo("repo1"), pk)
	case 2:
		r := repo("repo1")
		isolated(db, []string{rp}, []string{rp, r, core.DatabaseBucketPackage}, repo("repo2"), pk)
	case 3:
		r1, r2 := repo("repo1"), repo("repo2")
		sym.Assume(r1 != r2)
		p, q := []string{rp, r1, core.DatabaseBucketPackage}, []string{rp, r2, core.DatabaseBucketPackage}
		if strings.HasPrefix(r1+"-package", r2+"-package-") || strings.HasPrefix(r2+"-package", r1+"-package-") {
			b, c := bucketAt(db, p), bucketAt(db, q)
			must(b.PutObject([]byte("x"), &record{Name: "one"}))
			sym.Assert(len(pairs(c)) == 0, "a repository whose name continues another one's with -package is isolated from it")
			must(b.DeleteObject([]byte("x")))
			must(c.PutObject([]byte("x"), &record{Name: "one"}))
			sym.Assert(len(pairs(b)) == 0, "a repository whose name continues another one's with -package is isolated from it")
			return
		}
		isolated(db, p, q, pk, pk)
	case 4:
		isolated(db, s(jobs.BucketAsyncJobs), s(jobs.BucketSequentialJobs), k5, k1)
	case 5:
		isolated(db, s(jobs.BucketSuccessJobs), s(jobs.BucketFailJobs), k5, k1)
	case 6:
		isolated(db, s(jobs.BucketFailJobs), s(jobs.BucketSuccessJobs, jobs.BucketRecord), k5, k1)
	case 7:
		isolated(db, s(jobs.BucketSuccessJobs), s(jobs.BucketFailJobs, jobs.BucketRecord), k5, k1)
	}
}

// HSequences: C18, sequence keys are new, increasing and survive reopening.
func HSequences() {
	db := openDB()
	b := db.Bucket([]byte("q"))
	// any last key: also one whose low byte is about to wrap
	last := sym.Uint64("last")
	// all but the last few, and those that spell |bucket|
	sym.Assume(sym.And(last < 1<<64-16, sym.Or(last < 0x7c6275636b657400, last >= 0x7c6275636b657500)))
	if sym.Choose("empty", 2) == 0 {
		key := make([]byte, 8)
		for i := range key {
			key[i] = byte(last >> (56 - 8*uint(i)))
		}
		must(b.PutObject(key, &record{Name: "first"}))
	} else {
		sym.Assume(last == 0)
	}
	prev := ""
	for i := 0; i < 3; i++ {
		if sym.Choose("reopen", 2) == 1 {
			db.Close()
			db = openDB()
			b = db.Bucket([]byte("q"))
		}
		k, err := b.NextSequence()
		must(err)
		sym.Assert(len(k) == 8, "a sequence key has eight bytes")
		ok, err := b.HasObject(k)
		sym.Assert(err == nil && !ok, "a sequence key is new")
		sym.Assert(string(k) > prev, "sequence keys increase")
		must(b.PutObject(k, &record{Name: "more"}))
		prev = string(k)
		ps := pairs(b)
		sym.Assert(ps[len(ps)-1].k == prev, "the newest sequence key is iterated last")
	}
	db.Close()
	sym.Reach("sequence")
}

// model of one bucket
type model map[string]record

func (m model) check(b libdb.Database, keys []string) {
	var want []string
	for k := range m {
		want = append(want, k)
	}
	sort.Strings(want)
	got := pairs(b)
	sym.Assert(len(got) == len(want), "iteration visits each live key exactly once")
	for i, k := range want {
		sym.Assert(got[i].k == k, "iteration is in key order")
		sym.Assert(sameRecord(got[i].r, m[k]), "iteration shows the latest value")
	}
	for _, k := range keys {
		r, live := m[k]
		ok, err := b.HasObject([]byte(k))
		sym.Assert(err == nil && ok == live, "a key exists exactly while it is stored")
		var g record
		err = b.GetObject([]byte(k), &g)
		sym.Assert((err == nil) == live, "exactly stored objects can be read")
		if live {
			sym.Assert(sameRecord(g, r), "an object reads back as stored")
		}
	}
}

// HStore: C18, any short history of writes, deletions and transactions.
func HStore() {
	db := openDB()
	path := [][]string{nil, {"a", "b"}}[sym.Choose("bucket", 2)]
	b := bucketAt(db, path)
	keys := []string{sym.Chars("k1", "ab", 1), "ab", "b"}
	m := model{}
	n := 2 + sym.Tier()
	for i := 0; i < n; i++ {
		l := string(rune('0' + i))
		k := func(s string) string { return sym.ConcreteStr(keys[sym.Choose(s+l, len(keys))]) }
		v := record{sym.Chars("name"+l, "xy", 1), sym.Int("n"+l, -300, 300), []string{"p", sym.Chars("l"+l, "xy", 1)}}
		if i == 0 && sym.Choose("zero"+l, 2) == 1 {
			v = record{}
		}
		ops := 3
		if i == 0 {
			ops = 1 // start with any one key
		}
		switch sym.Choose("op"+l, ops) {
		case 0:
			key := k("key")
			sym.Assert(b.PutObject([]byte(key), &v) == nil, "a write succeeds")
			m[key] = v
		case 1:
			key := k("key")
			sym.Assert(b.DeleteObject([]byte(key)) == nil, "a deletion succeeds")
			delete(m, key)
		case 2:
			fail := sym.Choose("fail"+l, 2) == 1
			x, y := k("tx1-"), k("tx2-")
			second := sym.Choose("second"+l, 2)
			t := model{}
			for o, r := range m {
				t[o] = r
			}
			boom := errors.New("boom")
			err := b.Update(func(tx libdb.Database) error {
				if err := tx.PutObject([]byte(x), &v); err != nil {
					return err
				}
				t[x] = v
				if second == 0 {
					if err := tx.DeleteObject([]byte(y)); err != nil {
						return err
					}
					delete(t, y)
				} else {
					w := record{Name: "w"}
					if err := tx.PutObject([]byte(y), &w); err != nil {
						return err
					}
					t[y] = w
				}
				if fail {
					return boom
				}
				return nil
			})
			if fail {
				sym.Assert(err == boom, "a failing transaction reports its error")
				sym.Reach("rolled back")
			} else {
				sym.Assert(err == nil, "a transaction succeeds")
				m = t
				sym.Reach("committed")
			}
		}
		m.check(b, keys)
	}
	if sym.Choose("reopen", 2) == 1 {
		db.Close()
		db = openDB()
		m.check(bucketAt(db, path), keys)
	}
	db.Close()
	sym.Reach("done")
}

// HStoreFault: C18, an operation of the store fails: it says so, and nothing of
// it is stored; one that succeeds is stored whole.
func HStoreFault() {
	db := openDB()
	path := [][]string{nil, {"a", "b"}}[sym.Choose("bucket", 2)]
	b := bucketAt(db, path)
	keys := []string{"k", "l", "m"}
	v := record{sym.Chars("name", "xy", 1), sym.Int("n", -300, 300), nil}
	m := model{}
	for _, k := range keys[:sym.Choose("stored", 3)] {
		r := record{Name: "old " + k}
		must(b.PutObject([]byte(k), &r))
		m[k] = r
	}
	t := model{}
	for o, r := range m {
		t[o] = r
	}
	x := keys[sym.Choose("key", len(keys))]
	op := sym.Choose("op", 7)
	y := x
	if op == 2 || op == 3 {
		y = keys[sym.Choose("other", len(keys))]
	}
	var err error
	run := func() {
		switch op {
		case 0:
			err = b.PutObject([]byte(x), &v)
			t[x] = v
		case 1:
			err = b.DeleteObject([]byte(x))
			delete(t, x)
		case 2, 3:
			err = b.Update(func(tx libdb.Database) error {
				if err := tx.PutObject([]byte(x), &v); err != nil {
					return err
				}
				if op == 2 {
					return tx.DeleteObject([]byte(y))
				}
				return tx.PutObject([]byte(y), &record{Name: "w"})
			})
			t[x] = v
			if op == 2 {
				delete(t, y)
			} else {
				t[y] = record{Name: "w"}
			}
		case 4:
			var g record
			_, live := m[x]
			if err = b.GetObject([]byte(x), &g); err == nil {
				sym.Assert(live && sameRecord(g, m[x]), "an object reads back as stored")
			} else if !live {
				err = nil
			}
		case 5:
			var ok bool
			_, live := m[x]
			ok, err = b.HasObject([]byte(x))
			sym.Assert(err != nil || ok == live, "a failing lookup is not taken for a missing key")
		case 6:
			n := 0
			err = b.ForEach(func(k, v []byte) error {
				n++
				return nil
			})
			sym.Assert(err != nil || n == len(m), "an iteration that fails is not taken for a complete one")
		}
	}
	if sym.Choose("closed", 2) == 1 {
		db.Close()
		run()
		sym.Assert(err != nil || op == 4, "an operation on a closed database says that it fails")
		sym.Reach("closed")
		db = openDB()
		m.check(bucketAt(db, path), keys)
		db.Close()
		return
	}
	hit := sym.Fault(run)
	sym.Assert(err == nil || hit, "an operation succeeds when nothing fails")
	if err == nil {
		m = t
	}
	m.check(b, keys)
	db.Close()
	db = openDB()
	m.check(bucketAt(db, path), keys)
	db.Close()
	if hit {
		sym.Reach("failed")
	}
}
