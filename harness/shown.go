package vharness

import (
	"encoding/json"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/vharness/sym"
	_ "github.com/getsolus/ferryd/src/vharness/vmodel"
)

func init() {
	add("HShown", HShown)
}

// shown is what a command of ferryctl prints, line by line.
func shown(args ...string) []string {
	p := filepath.Join(sym.Root(), "output")
	f, err := os.Create(p)
	must(err)
	old := os.Stdout
	os.Stdout = f
	Command(args)
	os.Stdout = old
	must(f.Close())
	return strings.Split(content(p), "\n")
}

// rows reads the tables of the output: the cells of each row.
func rows(lines []string) (out [][]string) {
	for _, l := range lines {
		if !strings.Contains(l, "|") {
			continue
		}
		cells := strings.Split(l, "|")
		for i := range cells {
			cells[i] = strings.TrimSpace(cells[i])
		}
		if cells[0] == "STATUS" {
			continue
		}
		if cells[0] != "" {
			out = append(out, cells)
			continue
		}
		last := out[len(out)-1]
		for i := range cells {
			last[i] = strings.TrimSpace(last[i] + " " + cells[i])
		}
	}
	return
}

const shownTime = "2006-01-02 15:04:05"

// HShown: C40, ferryctl shows what the daemon answers.
func HShown() {
	sock := filepath.Join(sym.Root(), "sock")
	ln, err := net.Listen("unix", sock)
	must(err)
	var answer interface{}
	fail := sym.Choose("daemon fails", 2) == 1
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if fail {
			http.Error(w, "database is closed", http.StatusInternalServerError)
			return
		}
		b, err := json.Marshal(answer)
		must(err)
		w.Write(b)
	})}
	go srv.Serve(ln)
	defer srv.Close()
	switch sym.Choose("listing", 3) {
	case 0:
		l := &libferry.RepoListingRequest{}
		n := sym.Choose("repositories", 4)
		for i := 0; i < n; i++ {
			l.Repository = append(l.Repository, sym.Chars("name", "ab*-", 1+(i+n)%2))
		}
		answer = l
		want := append([]string{}, l.Repository...)
		sort.Strings(want)
		var got []string
		for _, x := range shown("list", "repos", "-s", sock) {
			if strings.HasPrefix(x, " * ") {
				got = append(got, x[3:])
			} else {
				none := strings.Contains(x, "No repositories")
				sym.Assert(!none || !fail && n == 0, "a listing is called empty only when it is")
			}
		}
		if fail {
			want = nil
		}
		sym.Assert(strings.Join(got, "\n") == strings.Join(want, "\n"), "every repository is shown once, in order of name")
		sym.Reach("repositories")
	case 1:
		l := &libferry.PoolListingRequest{}
		n := sym.Choose("items", 4)
		var want []string
		for i := 0; i < n; i++ {
			id := "p" + strconv.Itoa(i) + "-1-1-x86_64.eopkg"
			c := 1
			if i == 0 {
				c = sym.Concrete(sym.Int("count", 0, 12))
			}
			l.Item = append(l.Item, libferry.PoolItem{ID: id, RefCount: c})
			want = append(want, id+" "+strconv.Itoa(c))
		}
		answer = l
		var got []string
		for _, x := range shown("list", "pool", "-s", sock) {
			if f := strings.Fields(strings.NewReplacer("|", " ", "-  ", "").Replace(x)); len(f) == 4 && f[1] == "RefCount:" {
				got = append(got, f[3]+" "+f[2])
			} else {
				none := strings.Contains(x, "No pool items")
				sym.Assert(!none || !fail && n == 0, "a listing is called empty only when it is")
			}
		}
		if fail {
			want = nil
		}
		sym.Assert(sameSet(got, want), "every pooled file is shown once, with its references")
		sym.Reach("pool")
	case 2:
		status(sock, &answer, fail)
		sym.Reach("status")
	}
}

// someJobs are n jobs queued at different times in any order.
func someJobs(kind, n int, vary bool) (out libferry.JobSet) {
	shift, turn := 0, false
	if vary && n > 1 {
		turn = sym.Choose("reversed", 2) == 1
		shift = sym.Choose("shift", 2) * (n / 2)
	}
	for i := 0; i < n; i++ {
		k := (i + shift) % n
		if turn {
			k = n - 1 - k
		}
		j := &libferry.Job{Description: "job" + strconv.Itoa(kind) + "x" + strconv.Itoa(k)}
		j.Timing.Queued = time.Unix(1500000000, int64(200e6*k)).UTC()
		if kind != 1 || k == 0 {
			j.Timing.Begin = j.Timing.Queued.Add(time.Duration(1+k) * time.Minute)
		}
		if kind != 1 {
			j.Timing.End = j.Timing.Begin.Add(time.Duration(100-k) * time.Second)
		}
		if kind == 0 {
			j.Failed = true
			j.Error = "error" + strconv.Itoa(k)
		}
		out = append(out, j)
	}
	return
}

func status(sock string, answer *interface{}, fail bool) {
	st := &libferry.StatusRequest{TimeStarted: time.Unix(1400000000, 0).UTC(), Version: "v9"}
	which := sym.Choose("section", 4)
	var jobs [3]libferry.JobSet
	for k := range jobs {
		n := 1
		if which == k {
			n = []int{0, 2, 9, 10, 11, 12}[sym.Choose("jobs", 6)]
		} else if which == 3 {
			n = 0
		}
		jobs[k] = someJobs(k, n, which == k && !fail)
	}
	st.FailedJobs, st.CurrentJobs, st.CompletedJobs = jobs[0], jobs[1], jobs[2]
	*answer = st
	args := []string{"status", "-s", sock}
	all := 0
	if !fail {
		all = sym.Choose("all", 3)
	}
	if all > 0 {
		args = append(args, []string{"--all", "-a"}[all-1])
	}
	var want []string
	for k, l := range jobs {
		n := len(l)
		for i := 0; i < n; i++ {
			if i >= 10 && all == 0 {
				break
			}
			m := n - 1 - i // the newest first
			if k == 1 {
				m = i
			}
			var j *libferry.Job
			for _, c := range l {
				if c.Description == "job"+strconv.Itoa(k)+"x"+strconv.Itoa(m) {
					j = c
				}
			}
			t := j.Timing
			switch {
			case k == 0:
				want = append(want, strings.Join([]string{"failed", t.End.Format(shownTime), t.End.Sub(t.Begin).String(), j.Description, j.Error}, "|"))
			case k == 2:
				want = append(want, strings.Join([]string{"success", t.End.Format(shownTime), t.End.Sub(t.Queued).String(), t.End.Sub(t.Begin).String(), j.Description}, "|"))
			case t.Begin.IsZero():
				want = append(want, strings.Join([]string{"queued", t.Queued.Format(shownTime), "", j.Description}, "|"))
			default:
				want = append(want, strings.Join([]string{"running", t.Queued.Format(shownTime), "", j.Description}, "|"))
			}
		}
	}
	if fail {
		want = nil
	}
	lines := shown(args...)
	var got []string
	for _, r := range rows(lines) {
		if r[0] == "queued" || r[0] == "running" {
			r[2] = "" // depends on the time of the day
		}
		got = append(got, strings.Join(r, "|"))
	}
	sym.Assert(len(got) == len(want), "status shows every job, or the first ten of each kind")
	for i := range got {
		sym.Assert(got[i] == want[i], "status shows the jobs in order, with their state, times and error")
	}
	version := false
	for _, l := range lines {
		version = version || strings.Contains(l, "v9")
	}
	sym.Assert(version == !fail, "status shows the daemon's version")
}
