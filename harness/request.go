package vharness

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/vharness/sym"
	_ "github.com/getsolus/ferryd/src/vharness/vmodel"
)

func init() {
	add("HRequest", HRequest)
	add("HCommand", HCommand)
	add("HListing", HListing)
}

// twin makes one of two identical base directories: repositories a and b,
// three packages in a (two of one source), one in b, and no index.
func twin(name string, single bool) *World {
	w := &World{Root: filepath.Join(sym.Root(), name)}
	w.Base = filepath.Join(w.Root, "base")
	must(os.MkdirAll(w.Base, 0755))
	must(os.MkdirAll(filepath.Join(w.Root, "in"), 0755))
	w.open()
	must(w.M.CreateRepo("a"))
	must(w.M.CreateRepo("b"))
	dist := "<PISI><SourceName>Solus</SourceName><Version>1</Version><Description>d</Description><Type>main</Type><BinaryName>Solus</BinaryName><Obsoletes><Package>t</Package></Obsoletes></PISI>"
	for _, r := range []string{"a", "b"} {
		d := filepath.Join(w.Base, "assets", r)
		must(os.MkdirAll(d, 0755))
		must(os.WriteFile(filepath.Join(d, "distribution.xml"), []byte(dist), 0644))
	}
	s1 := w.pkg("s-1.eopkg", "s", "s", "1", 1)
	s2 := w.pkg("s-2.eopkg", "s", "s", "2", 2)
	t1 := w.pkg("t-1.eopkg", "t", "t", "1", 1)
	w.pkg("u-1.eopkg", "u", "u", "1", 1)
	w.pkg("v %2B+-1.eopkg", "v", "v", "1", 1)
	must(w.add("b", false, t1))
	if single {
		must(w.add("a", false, s1, t1))
	} else {
		must(w.add("a", false, s1, s2, t1))
	}
	for _, p := range w.Pkgs {
		w.refresh(p)
	}
	for _, f := range files(w.Base) {
		if strings.HasPrefix(filepath.Base(f), "eopkg-index") {
			must(os.Remove(filepath.Join(w.Base, f)))
		}
	}
	w.close()
	return w
}

// state describes everything a repository operation can change.
func (w *World) state() (out []string) {
	s := w.read()
	for _, p := range s.Pool {
		out = append(out, "pool "+p.Name+" "+strconv.Itoa(int(p.RefCount)))
	}
	for _, r := range s.Repos {
		out = append(out, "repo "+r.ID)
		for _, e := range r.Entries {
			out = append(out, "entry "+r.ID+" "+e.Name+" "+e.Published)
			for _, a := range e.Available {
				out = append(out, "available "+r.ID+" "+a)
			}
			for _, a := range e.Deltas {
				out = append(out, "delta "+r.ID+" "+a)
			}
		}
	}
	for _, d := range []string{"repo", "pool", "assets"} {
		for _, f := range files(filepath.Join(w.Base, d)) {
			out = append(out, "file "+d+"/"+f)
		}
	}
	for _, f := range files(filepath.Join(w.Root, "in")) {
		out = append(out, "upload "+f)
	}
	return
}

// repoName is any name a client may pass, or an existing one.
func repoName(label string, vary bool) string {
	if !vary {
		return []string{"a", "b"}[sym.Choose(label, 2)]
	}
	switch 1 + sym.Choose(label+" kind", 2) {
	case 1:
		n := 2
		if sym.Tier() > 0 {
			n = 3
		}
		return sym.Chars(label, "ab/.%?#+ &=", 1+sym.Choose(label+" length", n))
	}
	return []string{"", ".", "..", "a/../b", "a/", "/a", "%61", "a%2fb", "a?x=b", "b#a", "\u00e9", "a\x00", "\\", "\"", "a%", "../b", "//", ";a", "A"}[sym.Choose(label, 19)]
}

func sourceArg(vary bool) string {
	if !vary {
		return "s"
	}
	switch 1 + sym.Choose("source kind", 2) {
	case 1:
		return sym.Chars("source", "st.%", 1+sym.Choose("source length", 2))
	}
	return []string{"", "s\"t", "<s>", "s\n", "\u2028s", "S"}[sym.Choose("source", 6)]
}

// number is any number a client may pass, and whether the daemon can use it.
func number(label string, vary bool) (int, bool) {
	if !vary {
		return []int{1, 2, -1}[sym.Choose(label, 3)], true
	}
	n := int(sym.Uint64(label))
	return n, sym.And(n >= -1<<31, n < 1<<31)
}

// talk is a running daemon and the base directory it is compared with.
type talk struct {
	w, ref *World
	before []string
	sock   string
	d      Daemon
	client *libferry.Client
}

func newTalk(single bool) *talk {
	t := &talk{w: twin("daemon", single), ref: twin("reference", single), sock: filepath.Join(sym.Root(), "sock")}
	t.before = t.w.state()
	d, err := NewDaemon(t.w.Base, t.sock)
	must(err)
	t.d = d
	must(d.Bind())
	go d.Serve()
	t.client = libferry.NewClient(t.sock)
	t.status()
	return t
}

func (t *talk) status() *libferry.StatusRequest {
	st, err := t.client.GetStatus()
	sym.Assert(err == nil, "the daemon serves requests")
	return st
}

// finish waits until no job is left.
func (t *talk) finish() *libferry.StatusRequest {
	st := &libferry.StatusRequest{}
	done := sym.Wait(60e9, func() bool {
		st = t.status()
		return len(st.CurrentJobs) == 0
	})
	sym.Assert(done, "an accepted request is executed")
	return st
}

// settle compares the jobs of a request and their outcome with the reference
// and then everything the two daemons keep.
func (t *talk) settle(jobs int, fails bool) {
	st := t.finish()
	n := 0
	if fails {
		n = 1
	}
	sym.Assert(len(st.FailedJobs) == n, "a request fails exactly when the operation it names does")
	sym.Assert(len(st.CompletedJobs) == jobs-n, "a request is executed exactly once")
	for _, j := range st.FailedJobs {
		sym.Assert(j.Error != "" && j.Failed, "a failure is reported")
	}
	t.client.Close()
	t.d.Close()
	after, want := t.w.state(), t.ref.state()
	if jobs == 0 {
		sym.Assert(sameSet(after, t.before), "a refused request changes nothing")
	}
	sym.Assert(sameSet(after, want), "a request has the effect of the operation it names, with its arguments")
}

// HRequest: C22, a request has the effect of the operation it names.
func HRequest() {
	kind := sym.Choose("request", 11)
	t := newTalk(kind == 2)
	w, ref, client := t.w, t.ref, t.client
	// which argument is out of the ordinary
	odd := sym.Choose("odd argument", []int{1, 1, 1, 1, 1, 2, 2, 3, 4, 2, 1}[kind])
	id := repoName("id", odd == 0)
	jobs := 1
	usable := true
	ref.open()
	var do func() error
	var err error
	switch kind {
	case 0:
		err = client.CreateRepo(id)
		do = func() error { return ref.M.CreateRepo(id) }
	case 1:
		err = client.DeleteRepo(id)
		do = func() error { return ref.M.DeleteRepo(id) }
	case 2:
		err = client.DeltaRepo(id)
		do = func() error {
			names, err := ref.M.GetPackageNames(id)
			jobs += len(names)
			return err
		}
	case 3:
		err = client.IndexRepo(id)
		do = func() error { return ref.M.Index(id) }
	case 4:
		list := [][]int{{3}, {4, 3}, {3, 4}, {1}, {0, 4}, {3, 3}, {3, -1, 4}, {-2}}[sym.Choose("paths", 8)]
		paths := func(w *World) (out []string) {
			for _, i := range list {
				if i < 0 {
					out = append(out, []string{"", filepath.Join(w.Root, "in", "missing")}[-1-i])
				} else {
					out = append(out, w.Pkgs[i].Path)
				}
			}
			return
		}
		err = client.ImportPackages(id, paths(w))
		do = func() error { return ref.M.AddPackages(id, paths(ref), false) }
	case 5:
		name := repoName("clone", odd == 1)
		all := sym.Choose("all", 2) == 1
		err = client.CloneRepo(id, name, all)
		do = func() error { return ref.M.CloneRepo(id, name, all) }
	case 6:
		source := repoName("from", odd == 1)
		err = client.PullRepo(source, id)
		do = func() error {
			_, err := ref.M.PullRepo(source, id)
			return err
		}
	case 7:
		src := sourceArg(odd == 1)
		var rel int
		rel, usable = number("release", odd == 2)
		err = client.RemoveSource(id, src, rel)
		do = func() error { return ref.M.RemoveSource(id, src, rel) }
	case 8:
		target := repoName("target", odd == 1)
		src := sourceArg(odd == 2)
		skip := sym.Choose("skip", 2) == 1
		var rel int
		rel, usable = number("release", odd == 3)
		err = client.CopySource(id, target, src, rel, skip)
		do = func() error { return ref.M.CopySource(id, target, src, rel, skip) }
	case 9:
		var n int
		n, usable = number("keep", odd == 1)
		err = client.TrimPackages(id, n)
		do = func() error { return ref.M.TrimPackages(id, n) }
	case 10:
		err = client.TrimObsolete(id)
		do = func() error { return ref.M.TrimObsolete(id) }
	}
	if id != "" && id != "." && id != ".." && strings.IndexByte(id, '/') < 0 {
		sym.Assert(err == nil, "a request naming a repository is accepted")
	}
	fails := true
	switch {
	case err != nil:
		jobs, fails = 0, false
		sym.Reach("refused")
	case usable:
		fails = do() != nil
		sym.Reach("executed")
	case len(t.finish().FailedJobs) == 0:
		// a daemon that can use any number is fine, too
		sym.Assert(do() == nil, "a request fails exactly when the operation it names does")
		fails = false
	default:
		sym.Reach("unusable number")
	}
	ref.close()

	t.settle(jobs, fails)
}

// decimal is the number a command line argument stands for: one or more
// decimal digits with an optional plus sign, from 1 to the largest 32-bit number.
func decimal(s string) (int, bool) {
	if len(s) > 0 && s[0] == '+' {
		s = s[1:]
	}
	if s == "" || len(s) > 12 {
		return 0, false
	}
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, n >= 1 && n < 1<<31
}

func numberText(vary bool) string {
	if !vary {
		return []string{"1", "2"}[sym.Choose("number", 2)]
	}
	if sym.Choose("number kind", 2) == 0 {
		return sym.Chars("number", "0129+x ", 1+sym.Choose("number length", 2))
	}
	return []string{"", "2147483647", "2147483648", "4294967297", "18446744073709551617", "-4294967295", "1e0", "1.0", "001", "-1"}[sym.Choose("number", 10)]
}

// HCommand: C22, from the command line to the repository.
func HCommand() {
	kind := sym.Choose("command", 10)
	t := newTalk(false)
	ref := t.ref
	odd := sym.Choose("odd argument", []int{1, 1, 1, 1, 2, 2, 2, 3, 2, 1}[kind])
	name := func(label string, vary bool) string {
		if !vary {
			return []string{"a", "b"}[sym.Choose(label, 2)]
		}
		if sym.Choose(label+" kind", 2) == 0 {
			return sym.Chars(label, "ab%?", 1+sym.Choose(label+" length", 2))
		}
		return []string{"A", "\u00e9", "a b", "a=b", "b,a", "\"a\""}[sym.Choose(label, 6)]
	}
	id := name("id", odd == 0)
	ref.open()
	do := func() error { return nil }
	bad := false
	var args []string
	switch kind {
	case 0:
		args = []string{"create-repo", id}
		do = func() error { return ref.M.CreateRepo(id) }
	case 1:
		args = []string{"remove", "repo", id}
		do = func() error { return ref.M.DeleteRepo(id) }
	case 2:
		args = []string{"index", id}
		do = func() error { return ref.M.Index(id) }
	case 3:
		args = []string{"trim", "obsolete", id}
		do = func() error { return ref.M.TrimObsolete(id) }
	case 4:
		clone := name("clone", odd == 1)
		full := sym.Choose("full", 3)
		args = []string{"clone"}
		if full > 0 {
			args = append(args, []string{"--full", "-f"}[full-1])
		}
		args = append(args, id, clone)
		do = func() error { return ref.M.CloneRepo(id, clone, full > 0) }
	case 5:
		target := name("target", odd == 1)
		args = []string{"pull", id, target}
		do = func() error {
			_, err := ref.M.PullRepo(id, target)
			return err
		}
	case 6:
		src := []string{"s", "t", "x"}[sym.Choose("source", 3)]
		args = []string{"remove", "source", id, src}
		rel := -1
		if sym.Choose("with release", 2) == 1 {
			s := numberText(odd == 1)
			n, ok := decimal(s)
			rel, bad = n, bad || !ok
			args = append(args, s)
		}
		do = func() error { return ref.M.RemoveSource(id, src, rel) }
	case 7:
		target := name("target", odd == 1)
		src := []string{"s", "t", "x"}[sym.Choose("source", 3)]
		args = []string{"copy", "source", id, target, src}
		skip := sym.Choose("skip", 2) == 1
		rel := -1
		if sym.Choose("with release", 2) == 1 {
			s := numberText(odd == 2)
			n, ok := decimal(s)
			rel, bad = n, bad || !ok
			args = append(args, s)
		}
		if skip {
			args = append(args, []string{"-x", "--skip-index"}[sym.Choose("skip flag", 2)])
		}
		do = func() error { return ref.M.CopySource(id, target, src, rel, skip) }
	case 8:
		s := numberText(odd == 1)
		n, ok := decimal(s)
		bad = bad || !ok
		args = []string{"trim", "packages", id, s}
		do = func() error { return ref.M.TrimPackages(id, n) }
	case 9:
		names := []string{"u-1-x86_64.eopkg", "d/v-1-x86_64.eopkg", "d/e/w-1-x86_64.eopkg", "d/u-1-2-x.delta.eopkg", "d/x86_64.eopkg.txt"}
		var r [2][]string
		for i, w := range []*World{t.w, ref} {
			for j, n := range names {
				p := filepath.Join(w.Root, "up", n)
				must(os.MkdirAll(filepath.Dir(p), 0755))
				zipFile(p, "metadata.xml", metadataXML("n"+strconv.Itoa(j), "n", "1", "1"))
				r[i] = append(r[i], p)
			}
		}
		up := filepath.Join(t.w.Root, "up")
		var list []string
		switch sym.Choose("what", 4) {
		case 0:
			args = []string{"import", id, r[0][0]}
			list = r[1][:1]
		case 1:
			args = []string{"import", id, filepath.Join(up, "d")}
			list = r[1][1:3]
		case 2:
			args = []string{"import", id, filepath.Join(up, "d/e") + "/", r[0][0]}
			list = []string{r[1][2], r[1][0]}
		case 3:
			args = []string{"import", id, up, filepath.Join(up, "missing")}
			bad = true
		}
		do = func() error { return ref.M.AddPackages(id, list, false) }
	}
	switch sym.Choose("argument count", 3) {
	case 1:
		args = append(args, "x")
		bad = true
	case 2:
		sym.Assume(kind < 6 || kind == 8)
		args = args[:len(args)-1]
		bad = true
	}
	Command(append([]string{"--socket", t.sock}, args...))
	jobs, fails := 1, false
	if bad {
		jobs = 0
		sym.Reach("rejected")
	} else {
		fails = do() != nil
		sym.Reach("executed")
	}
	ref.close()
	t.settle(jobs, fails)
}

// HListing: C22, what the daemon reports is what it has.
func HListing() {
	t := newTalk(false)
	defer t.client.Close()
	name := []string{"c", "a%b", "\u00e9", "x y", "<&>\"", "#?"}[sym.Choose("name", 6)]
	repos, pool := []string{"a", "b"}, []string{"s-1.eopkg 1", "s-2.eopkg 1", "t-1.eopkg 2"}
	failed, completed := 0, 0
	for i := 0; i < 2; i++ {
		var err error
		switch sym.Choose("request "+strconv.Itoa(i), 5) {
		case 0:
			err = t.client.CreateRepo(name)
			if has(repos, name) {
				failed++
			} else {
				completed++
				repos = append(repos, name)
			}
		case 1:
			err = t.client.DeleteRepo("b")
			if has(repos, "b") {
				completed++
				repos[1] = "a"
				repos = repos[1:]
				pool[2] = "t-1.eopkg 1"
			} else {
				failed++
			}
		case 2:
			err = t.client.IndexRepo("zz")
			failed++
		case 3:
			err = t.client.IndexRepo("a")
			completed++
		}
		sym.Assert(err == nil, "a request naming a repository is accepted")
	}
	t.finish()
	switch sym.Choose("reset", 5) {
	case 1:
		sym.Assert(t.client.ResetFailed() == nil, "the history can be reset")
		failed = 0
	case 2:
		sym.Assert(t.client.ResetCompleted() == nil, "the history can be reset")
		completed = 0
	case 3:
		Command([]string{"reset", "failed", "-s", t.sock})
		failed = 0
	case 4:
		Command([]string{"reset", "completed", "--socket=" + t.sock})
		completed = 0
	}
	l, err := t.client.GetRepos()
	sym.Assert(err == nil && sameSet(l, repos), "the repositories are listed")
	items, err := t.client.GetPoolItems()
	var got []string
	for _, p := range items {
		got = append(got, p.ID+" "+strconv.Itoa(p.RefCount))
	}
	sym.Assert(err == nil && sameSet(got, pool), "the pool is listed with its reference counts")
	st := t.status()
	sym.Assert(len(st.FailedJobs) == failed && len(st.CompletedJobs) == completed && len(st.CurrentJobs) == 0, "the job history is reported")
	for _, j := range st.FailedJobs {
		sym.Assert(j.Failed && j.Error != "" && j.Description != "", "a failed job is reported with its error")
	}
	for _, j := range st.CompletedJobs {
		sym.Assert(!j.Failed && j.Error == "" && j.Description != "", "a completed job is reported without an error")
		sym.Assert(!j.Timing.Queued.IsZero() && !j.Timing.Begin.Before(j.Timing.Queued) && !j.Timing.End.Before(j.Timing.Begin), "a job is queued, started and ended in this order")
	}
	t.d.Close()
	sym.Reach("listed")
}
