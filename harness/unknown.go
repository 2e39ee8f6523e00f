package vharness

import (
	"os"
	"path/filepath"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HUnknown", HUnknown)
}

// tree lists every file and directory below dir, with the contents of files.
func tree(dir, rel string, out map[string]string) {
	es, err := os.ReadDir(dir)
	must(err)
	for _, e := range es {
		p, r := filepath.Join(dir, e.Name()), rel+"/"+e.Name()
		if e.IsDir() {
			out[r] = "directory"
			tree(p, r, out)
			continue
		}
		out[r] = "file " + content(p)
	}
}

// files lists what there is below the base directory apart from the database.
func (w *World) tree() map[string]string {
	out := map[string]string{}
	for _, d := range []string{"repo", "pool", "assets", "deltaBuilds", "deltaStaging"} {
		if _, err := os.Stat(filepath.Join(w.Base, d)); err == nil {
			tree(filepath.Join(w.Base, d), d, out)
		}
	}
	return out
}

func sameTree(a, b map[string]string) bool {
	for k := range a {
		if a[k] != b[k] {
			return false
		}
	}
	return len(a) == len(b)
}

// HUnknown: a command about a repository that does not exist fails and has no
// effect at all, whatever the name.
func HUnknown() {
	s := newScene(false)
	s.fill("a", s.f1, s.f2, s.d, s.h)
	s.fill("b", s.f1)
	if sym.Bool("deleted before") {
		must(s.M.CreateRepo("c"))
		s.fill("c", s.f3)
		must(s.M.DeleteRepo("c"))
	}
	n := sym.Choose("length", 4)
	x := sym.Chars("name", "abc|/.", n)
	sym.Assume(x != "a" && x != "b")
	s.refresh(s.h2)
	in := s.h2.Path
	var j *jobs.JobEntry
	op := sym.Choose("command", 15)
	switch op {
	case 0:
		j = jobs.NewBulkAddJob(x, []string{in})
	case 1:
		j = jobs.NewCloneRepoJob(x, "new", sym.Bool("full"))
	case 2:
		j = jobs.NewPullRepoJob(x, "a")
	case 3:
		j = jobs.NewPullRepoJob("a", x)
	case 4:
		j = jobs.NewCopySourceJob(x, "b", "foo", -1, sym.Bool("skip"))
	case 5:
		j = jobs.NewCopySourceJob("a", x, "foo", -1, sym.Bool("skip"))
	case 6:
		j = jobs.NewDeleteRepoJob(x)
	case 7:
		j = jobs.NewDeltaJob(x, "foo")
	case 8:
		j = jobs.NewDeltaIndexJob(x, "foo")
	case 9:
		j = jobs.NewDeltaRepoJob(x)
	case 10:
		j = jobs.NewIndexRepoJob(x)
	case 11:
		j = jobs.NewRemoveSourceJob(x, "foo", -1)
	case 12:
		j = jobs.NewTrimObsoleteJob(x)
	case 13:
		j = jobs.NewTrimPackagesJob(x, 1)
	case 14:
		// the names of existing repositories cannot be used again
		switch sym.Choose("again", 3) {
		case 0:
			j = jobs.NewCreateRepoJob("a")
		case 1:
			j = jobs.NewCloneRepoJob("a", "b", sym.Bool("full"))
		case 2:
			j = jobs.NewCloneRepoJob("b", "b", sym.Bool("full"))
		}
	}
	before, was := s.tree(), s.snap()
	st, err := jobs.NewStore(s.Base)
	must(err)
	proc := jobs.NewProcessor(s.M, st, 2)
	h, err := jobs.NewJobHandler(j)
	must(err)
	err = h.Execute(proc, s.M)
	sym.Assert(err != nil, "a command about a repository that does not exist fails")
	_, err = st.ClaimAsyncJob()
	sym.Assert(err == jobs.ErrEmptyQueue, "a command about a repository that does not exist queues nothing")
	st.Close()
	expectSame(was, s.snap(), "a command about a repository that does not exist")
	sym.Assert(sameTree(before, s.tree()), "a command about a repository that does not exist touches no file")
	sym.Assert(content(in) == string(s.h2.Data), "a package offered to a repository that does not exist stays where it is")
	sym.Assert(s.M.CreateRepo("new") == nil, "the name can still be used")
	sym.Reach("refused")
}
