package vharness

import (
	"bytes"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/vharness/sym"
)

func init() {
	add("HQueued", HQueued)
	add("HFollowUp", HFollowUp)
	add("HTold", HTold)
}

// Router is the request handler of a daemon, set by the bridge.
var Router func(d Daemon) http.Handler

type answer struct {
	h    http.Header
	code int
	body []byte
}

func (a *answer) Header() http.Header { return a.h }
func (a *answer) WriteHeader(c int) {
	if a.code == 0 {
		a.code = c
	}
}
func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	a.body = append(a.body, b...)
	return len(b), nil
}

func call(h http.Handler, method, path string, req interface{}) *answer {
	var body []byte
	if req != nil {
		b, err := json.Marshal(req)
		must(err)
		body = b
	}
	r := &http.Request{Method: method, URL: &url.URL{Path: path}, RequestURI: path, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))}
	a := &answer{h: http.Header{}}
	h.ServeHTTP(a, r)
	a.WriteHeader(200)
	return a
}

// HQueued: C36, one database operation fails during a request.
func HQueued() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	p := w.pkg("foo-1.eopkg", "foo", "foo", "1", 1)
	must(w.add("a", false, p))
	w.close()
	d, err := NewDaemon(w.Base, w.Root+"/sock")
	must(err)
	must(d.Bind())
	h := Router(d)
	// what is queued already
	for i := sym.Choose("queued", 3); i > 0; i-- {
		sym.Assert(call(h, "GET", "/api/v1/index/repo/q", nil).code == 200, "requests are accepted")
	}
	status := func() *libferry.StatusRequest {
		st := &libferry.StatusRequest{}
		a := call(h, "GET", "/api/v1/status", nil)
		sym.Assert(a.code == 200, "requests are accepted")
		must(json.Unmarshal(a.body, st))
		return st
	}
	before := len(status().CurrentJobs)
	id := sym.Chars("id", "abc", 1)
	kind := sym.Choose("request", 11)
	text := ""
	var a *answer
	hit := sym.Fault(func() {
		get := func(path string) {
			text = "'" + id + "'"
			a = call(h, "GET", "/api/v1/"+path+"/"+id, nil)
		}
		post := func(path string, r interface{}) {
			text = "'" + id + "'"
			a = call(h, "POST", "/api/v1/"+path+"/"+id, r)
		}
		switch kind {
		case 0:
			get("create/repo")
		case 1:
			get("remove/repo")
		case 2:
			get("delta/repo")
		case 3:
			get("index/repo")
		case 4:
			get("trim/obsoletes")
		case 5:
			post("import", &libferry.ImportRequest{Path: []string{"/x"}})
		case 6:
			post("clone", &libferry.CloneRepoRequest{CloneName: "n", CopyAll: true})
		case 7:
			post("copy/source", &libferry.CopySourceRequest{Target: "t", Source: "s", Release: 2})
		case 8:
			post("pull", &libferry.PullRepoRequest{Source: "s"})
		case 9:
			post("remove/source", &libferry.RemoveSourceRequest{Source: "s", Release: 2})
		case 10:
			post("trim/packages", &libferry.TrimPackagesRequest{MaxKeep: 2})
		}
	})
	st := status()
	n := len(st.CurrentJobs) - before
	sym.Assert(n == 0 || n == 1, "a request queues one job")
	if a.code == 200 {
		sym.Assert(n == 1, "a request that was not queued is refused")
		last := ""
		for _, j := range st.CurrentJobs {
			if !strings.Contains(j.Description, "'q'") {
				last = j.Description
			}
		}
		sym.Assert(strings.Contains(last, text), "the job queued is the one requested")
		sym.Reach("accepted")
	} else {
		sym.Assert(hit, "a request is only refused when it could not be queued")
		sym.Assert(n == 0, "a refused request is not queued")
		sym.Assert(len(a.body) > 0, "a refusal says why")
		sym.Reach("refused")
	}
}

// HTold: C36, what the client library makes of the daemon's answer when one
// database operation fails during a request.
func HTold() {
	w := newWorld()
	w.close()
	d, err := NewDaemon(w.Base, w.Root+"/unused")
	must(err)
	must(d.Bind())
	h := Router(d)
	sock := w.Root + "/sock"
	l, err := net.Listen("unix", sock)
	must(err)
	srv := &http.Server{Handler: h}
	go srv.Serve(l)
	c := libferry.NewClient(sock)
	st, err := c.GetStatus()
	must(err)
	sym.Assert(len(st.CurrentJobs) == 0, "a new daemon has no jobs")
	id := sym.Chars("id", "abc", 1)
	hit := sym.Fault(func() {
		switch sym.Choose("request", 11) {
		case 0:
			err = c.CreateRepo(id)
		case 1:
			err = c.DeleteRepo(id)
		case 2:
			err = c.DeltaRepo(id)
		case 3:
			err = c.IndexRepo(id)
		case 4:
			err = c.TrimObsolete(id)
		case 5:
			err = c.ImportPackages(id, []string{"/x"})
		case 6:
			err = c.CloneRepo(id, "n", true)
		case 7:
			err = c.CopySource(id, "t", "s", 2, true)
		case 8:
			err = c.PullRepo("s", id)
		case 9:
			err = c.RemoveSource(id, "s", 2)
		case 10:
			err = c.TrimPackages(id, 2)
		}
	})
	st, e := c.GetStatus()
	must(e)
	if err == nil {
		sym.Assert(len(st.CurrentJobs) == 1 && strings.Contains(st.CurrentJobs[0].Description, "'"+id+"'"), "a client that sees no error has its job queued")
		sym.Reach("accepted")
	} else {
		sym.Assert(hit, "a client is only told of a failure when there was one")
		sym.Assert(len(st.CurrentJobs) == 0, "a client that is told of a failure has no job queued")
		sym.Assert(err.Error() != "", "the client is told why")
		sym.Reach("refused")
	}
	c.Close()
}

// HFollowUp: C36, one database operation fails while a job queues others.
func HFollowUp() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	var names []string
	for i := sym.Choose("packages", 4); i > 0; i-- {
		n := "p" + string(rune('0'+i))
		names = append(names, n)
		must(w.add("a", false, w.pkg(n+"-1.eopkg", n, n, "1", 1)))
	}
	s, err := jobs.NewStore(w.Base)
	must(err)
	proc := jobs.NewProcessor(w.M, s, 2)
	h, err := jobs.NewJobHandler(jobs.NewDeltaRepoJob("a"))
	must(err)
	hit := sym.Fault(func() { err = h.Execute(proc, w.M) })
	sym.Assert(err == nil || hit, "the job succeeds")
	var queued []string
	for {
		e, err := s.ClaimAsyncJob()
		if err != nil {
			sym.Assert(err == jobs.ErrEmptyQueue, "the queue can be read")
			break
		}
		queued = append(queued, e.Params[1])
		must(s.RetireAsyncJob(e))
	}
	if err != nil {
		sym.Reach("failed")
	} else {
		sym.Assert(sameSet(queued, names), "a job that succeeds has queued what it should")
		sym.Reach("succeeded")
	}
	s.Close()
}
