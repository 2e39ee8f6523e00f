package vharness

import (
	"net"
	"os"
	"path/filepath"

	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/vharness/sym"
	"github.com/getsolus/ferryd/src/vharness/vmodel"
)

func init() {
	add("HShutdown", HShutdown)
	add("HBind", HBind)
	add("HShutdownBusy", HShutdownBusy)
}

// HShutdown: C35, requests before and while the daemon shuts down.
func HShutdown() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	p := w.pkg("foo-1.eopkg", "foo", "foo", "1", 1)
	q := w.pkg("bar-1.eopkg", "bar", "bar", "1", 1)
	must(w.add("a", false, p))
	w.refresh(q)
	w.close()
	sock := filepath.Join(w.Root, "sock")
	d, err := NewDaemon(w.Base, sock)
	must(err)
	must(d.Bind())
	served := false
	go func() {
		d.Serve()
		served = true
	}()
	client := libferry.NewClient(sock)
	st, err := client.GetStatus()
	sym.Assert(err == nil, "the daemon serves requests")
	accepted, refused := 0, 0
	var want, wantNot []string
	imported := false
	request := func(c *libferry.Client, kind int, id string) {
		var err error
		switch kind {
		case 0:
			err = c.CreateRepo(id)
			if err == nil {
				want = append(want, id)
			} else {
				wantNot = append(wantNot, id)
			}
		case 1:
			err = c.ImportPackages("a", []string{q.Path})
			imported = imported || err == nil
		case 2:
			err = c.IndexRepo("a")
		case 3:
			err = c.DeltaRepo("a")
			if err == nil {
				accepted++ // and a job for the package
			}
		case 4:
			_, err = c.GetStatus()
			accepted--
		case 5:
			_, err = c.GetPoolItems()
			accepted--
		}
		if err == nil {
			accepted++
		} else {
			if kind > 3 {
				accepted++
			}
			refused++
		}
	}
	kinds := 3
	if sym.Tier() > 0 {
		kinds = 4
	}
	for i := sym.Choose("requests before", 3); i > 0; i-- {
		request(client, sym.Choose("before", kinds), "c"+string(rune('0'+i)))
	}
	sym.Assert(refused == 0, "the daemon serves requests")
	if sym.Choose("progress", 2) == 1 {
		sym.Wait(20e9, func() bool {
			st, err = client.GetStatus()
			sym.Assert(err == nil, "the daemon serves requests")
			return len(st.CompletedJobs) > 0
		})
	}
	held := sym.Choose("held", 2) == 1
	var c net.Conn
	if held {
		c, err = net.Dial("unix", sock)
		must(err)
		_, err = client.GetStatus()
		must(err)
	}
	client.Close()
	late := sym.Choose("late", 6)
	if sym.During(func() { d.Close() }, func() {
		c := libferry.NewClient(sock)
		request(c, late, "late")
		c.Close()
	}) {
		sym.Reach("late")
	}
	sym.Assert(sym.Wait(1e9, func() bool { return served }), "a closed daemon stops serving")
	sym.Assert(!exists(sock), "a closed daemon removes its socket")
	if c != nil {
		c.Close()
	}
	if refused > 0 {
		sym.Reach("refused")
	}
	finish(w, sock, accepted, want, wantNot, imported)
}

// finish starts the daemon again: whatever it accepted is done, once.
func finish(w *World, sock string, accepted int, want, wantNot []string, imported bool) {
	// and again
	d, err := NewDaemon(w.Base, sock)
	must(err)
	must(d.Bind())
	go d.Serve()
	client := libferry.NewClient(sock)
	var st *libferry.StatusRequest
	sym.Assert(sym.Wait(60e9, func() bool {
		st, err = client.GetStatus()
		sym.Assert(err == nil, "the daemon serves requests")
		return len(st.CurrentJobs) == 0
	}), "an accepted request is executed, if need be after a restart")
	sym.Assert(len(st.FailedJobs) == 0, "no request is executed twice or fails because of a shutdown")
	sym.Assert(len(st.CompletedJobs) >= accepted, "an accepted request is executed, if need be after a restart")
	repos, err := client.GetRepos()
	sym.Assert(err == nil, "the daemon serves requests")
	for _, id := range want {
		sym.Assert(has(repos, id), "an accepted request has its effect")
	}
	for _, id := range wantNot {
		sym.Assert(!has(repos, id), "a refused request has no effect")
	}
	pool, err := client.GetPoolItems()
	sym.Assert(err == nil, "the daemon serves requests")
	sym.Assert((len(pool) == 2) == imported, "an accepted request has its effect")
	client.Close()
	d.Close()
	s := w.read()
	w.checkRefs(s)
	w.checkFiles(s)
	w.checkTips(s)
}

// HShutdownBusy: C35, the daemon is stopped in the middle of a job: one
// operation of it takes its time.
func HShutdownBusy() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	must(w.M.CreateRepo("b"))
	p := w.pkg("foo-1.eopkg", "foo", "foo", "1", 1)
	q := w.pkg("bar-1.eopkg", "bar", "bar", "1", 1)
	must(w.add("a", false, p))
	w.refresh(q)
	w.close()
	sock := filepath.Join(w.Root, "sock")
	d, err := NewDaemon(w.Base, sock)
	must(err)
	must(d.Bind())
	served := false
	go func() {
		d.Serve()
		served = true
	}()
	client := libferry.NewClient(sock)
	_, err = client.GetStatus()
	sym.Assert(err == nil, "the daemon serves requests")
	var want, wantNot []string
	imported := false
	kind := sym.Choose("request", 6)
	second := sym.Choose("another", 2) == 1
	accepted := 1
	switch kind {
	case 0:
		err = client.CreateRepo("c")
		want = append(want, "c")
	case 1:
		err = client.ImportPackages("a", []string{q.Path})
		imported = true
	case 2:
		err = client.IndexRepo("a")
	case 3:
		err = client.DeleteRepo("b")
		wantNot = append(wantNot, "b")
	case 4:
		err = client.CloneRepo("a", "c", true)
		want = append(want, "c")
	case 5:
		err = client.PullRepo("a", "b")
	}
	sym.Assert(err == nil, "the daemon serves requests")
	if second {
		sym.Assert(client.CreateRepo("d") == nil, "the daemon serves requests")
		want = append(want, "d")
		accepted++
	}
	if sym.Slow(3e9, func() {
		sym.Wait(27e8, func() bool { return false }) // the job is under way
		client.Close()
		d.Close()
	}) {
		sym.Reach("busy")
	}
	sym.Assert(sym.Wait(1e9, func() bool { return served }), "a closed daemon stops serving")
	sym.Assert(!exists(sock), "a closed daemon removes its socket")
	finish(w, sock, accepted, want, wantNot, imported)
}

// HBind: C35, what is at the path of the socket when the daemon starts.
func HBind() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	w.close()
	sock := filepath.Join(w.Root, "sock")
	what := sym.Choose("there", 5)
	var other Daemon
	serving := false
	switch what {
	case 0:
		sym.Reach("nothing")
	case 1:
		if sym.Symbolic() {
			vmodel.Stale(sock)
		} else {
			l, err := net.Listen("unix", sock)
			must(err)
			l.(*net.UnixListener).SetUnlinkOnClose(false)
			must(l.Close())
		}
		sym.Reach("stale")
	case 2: // another daemon
		b := filepath.Join(w.Root, "base2")
		must(os.MkdirAll(b, 0755))
		d, err := NewDaemon(b, sock)
		must(err)
		must(d.Bind())
		serving = sym.Choose("serving", 2) == 1
		if serving {
			go d.Serve()
			c := libferry.NewClient(sock)
			_, err = c.GetStatus()
			must(err)
			c.Close()
		}
		other = d
		sym.Reach("other")
	case 3:
		must(os.WriteFile(sock, []byte("x"), 0644))
	case 4:
		must(os.Mkdir(sock, 0755))
	}
	d, err := NewDaemon(w.Base, sock)
	must(err)
	err = d.Bind()
	sym.Assert((err == nil) == (what < 2), "the daemon starts unless something else uses its socket's path")
	switch what {
	case 2:
		if !serving {
			go other.Serve()
		}
	case 3:
		sym.Assert(content(sock) == "x", "files that are no sockets stay")
		return
	case 4:
		sym.Assert(exists(sock), "files that are no sockets stay")
		return
	default:
		go d.Serve()
	}
	c := libferry.NewClient(sock)
	repos, err := c.GetRepos()
	sym.Assert(err == nil, "the daemon serves requests")
	sym.Assert((len(repos) == 1) == (what != 2), "a socket in use stays with its daemon")
	c.Close()
}
