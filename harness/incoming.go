package vharness

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/vharness/sym"
	"github.com/getsolus/ferryd/src/vharness/vmodel"
	"github.com/radu-munteanu/fsnotify"
)

func init() {
	add("HIncoming", HIncoming)
}

// notify tells the model about what the kernel notices natively.
func notify(path string, ops ...fsnotify.Op) {
	if sym.Symbolic() {
		for _, op := range ops {
			vmodel.Notify(path, op)
		}
	}
}

const written = fsnotify.Update | fsnotify.Close

// drop is a running daemon whose incoming directory is used.
type drop struct {
	w      *World
	dir    string
	client *libferry.Client
	jobs   int // that must have been queued
	maybe  int // that may have been queued in addition
	marks  int
}

func (d *drop) write(path, text string) {
	_, err := os.Lstat(path)
	must(os.WriteFile(path, []byte(text), 0644))
	if err != nil {
		notify(path, fsnotify.Create)
	}
	if text != "" {
		notify(path, fsnotify.Write)
	}
	notify(path, written)
}

func (d *drop) move(from, to string) {
	must(os.Rename(from, to))
	notify(from, fsnotify.Rename)
	notify(to, fsnotify.Create|fsnotify.Update)
}

func (d *drop) status() *libferry.StatusRequest {
	st, err := d.client.GetStatus()
	sym.Assert(err == nil, "the daemon serves requests")
	return st
}

// settle waits until everything that happened so far was handled: events and
// upload jobs are handled in order.
func (d *drop) settle() {
	d.marks++
	name := "mark" + string(rune('0'+d.marks)) + ".tram"
	d.write(filepath.Join(d.dir, name), "no manifest")
	d.jobs++
	n := 0
	seen := sym.Wait(20e9, func() bool {
		st := d.status()
		n = len(st.FailedJobs) + len(st.CompletedJobs)
		for _, j := range st.FailedJobs {
			if strings.Contains(j.Description, name) {
				return len(st.CurrentJobs) == 0
			}
		}
		return false
	})
	sym.Assert(seen, "a new upload is processed, whatever happened before")
	sym.Assert(n >= d.jobs, "every complete upload is processed")
	sym.Assert(n <= d.jobs+d.maybe, "nothing else is processed, and no upload twice")
	d.jobs, d.maybe = n, 0
}

// HIncoming: C34, what happens in the incoming directory.
func HIncoming() {
	w := newWorld()
	must(w.M.CreateRepo("a"))
	p := w.pkg("foo-1.eopkg", "foo", "foo", "1", 1)
	q := w.pkg("bar-1.eopkg", "bar", "bar", "1", 1)
	d := &drop{w: w, dir: w.M.IncomingPath}
	w.close()
	good := manifestText("1.0", "a", p.ID, sha256hex(p.Data))
	sock := filepath.Join(w.Root, "sock")
	daemon, err := NewDaemon(w.Base, sock)
	must(err)
	must(daemon.Bind())
	d.client = libferry.NewClient(sock)
	early := sym.Choose("early", 3)
	start := func() {
		go daemon.Serve()
		d.status()
	}
	if early == 0 {
		start()
	}
	d.write(filepath.Join(d.dir, p.ID), string(p.Data))
	if early == 2 {
		// too much happens before the daemon serves
		if sym.Symbolic() {
			vmodel.Overflow()
		} else {
			must(os.WriteFile(filepath.Join(d.dir, "z"), nil, 0600))
			for i := 0; i < 40000; i++ {
				must(os.Chmod(filepath.Join(d.dir, []string{p.ID, "z"}[i%2]), 0600))
			}
		}
		start()
		d.maybe = 9
		sym.Reach("overflow")
	}
	// a name, and whether it names a manifest
	var name string
	switch sym.Choose("name", 3) {
	case 0:
		name = "up.tram"
	case 1:
		name = sym.Chars("base", "am.t", sym.Choose("length", 3)) + ".tra" + sym.Chars("end", "mM. ", 1)
	case 2:
		name = "a" + sym.Chars("dot", ".-", 1) + "tram" + sym.Chars("end", "m.p", sym.Choose("length", 2))
	}
	is := strings.HasSuffix(name, ".tram")
	path := filepath.Join(d.dir, name)
	n := 0
	if is {
		n = 1
	}
	used := false
	out := func() string {
		s := filepath.Join(w.Root, "elsewhere")
		must(os.WriteFile(s, []byte(good), 0644))
		return s
	}
	switch sym.Choose("placed", 9) {
	case 0:
		d.write(path, good)
		d.jobs += n
		used = is
	case 1: // in two parts
		f, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0644)
		must(err)
		notify(path, fsnotify.Create)
		half := len(good) / 2
		_, err = f.WriteString(good[:half])
		must(err)
		notify(path, fsnotify.Write)
		if early != 1 {
			d.settle()
		}
		_, err = f.WriteString(good[half:])
		must(err)
		notify(path, fsnotify.Write)
		must(f.Close())
		notify(path, written)
		d.jobs += n
		used = is
	case 2: // moved there
		d.move(out(), path)
		d.jobs += n
		used = is
	case 3: // renamed once complete
		d.write(path+".part", good)
		d.move(path+".part", path)
		d.jobs += n
		used = is
	case 4: // renamed away
		d.write(path, "no manifest")
		d.jobs += n
		if early != 1 {
			d.settle()
		} else {
			d.maybe, d.jobs = d.maybe+n, d.jobs-n
		}
		d.move(path, path+".old")
	case 5: // a directory
		must(os.Mkdir(path, 0755))
		notify(path, fsnotify.Create)
		d.write(filepath.Join(path, "x.tram"), good)
	case 6: // a directory, moved there
		s := filepath.Join(w.Root, "dir")
		must(os.Mkdir(s, 0755))
		must(os.WriteFile(filepath.Join(s, "x.tram"), []byte(good), 0644))
		d.move(s, path)
	case 7: // a link
		must(os.Symlink(out(), path))
		notify(path, fsnotify.Create)
	case 8: // written and removed
		d.write(path, good)
		must(os.Remove(path))
		notify(path, fsnotify.Remove)
		d.maybe += n
	}
	if early == 1 {
		start()
	}
	d.settle()
	repo := func() bool {
		l, err := d.client.GetPoolItems()
		sym.Assert(err == nil, "the daemon serves requests")
		return len(l) == 1
	}
	if early != 2 {
		sym.Assert(repo() == used, "exactly a complete upload is imported")
		sym.Assert(!used || !exists(path), "the manifest of an imported upload is deleted")
		if used {
			sym.Reach("imported")
		} else {
			sym.Reach("ignored")
		}
	}
	// and afterwards
	switch sym.Choose("then", 6) {
	case 1: // the upload of another package
		d.write(filepath.Join(d.dir, q.ID), string(q.Data))
		d.write(filepath.Join(d.dir, "q.tram"), manifestText("1.0", "a", q.ID, sha256hex(q.Data)))
		d.jobs++
	case 2: // uploaded again
		d.write(filepath.Join(d.dir, "mark1.tram"), good)
		d.jobs++
	case 3: // what does not change the file
		m := filepath.Join(d.dir, "mark1.tram")
		must(os.Chmod(m, 0600))
		notify(m, fsnotify.Chmod)
		content(m)
		notify(m, fsnotify.Close)
		must(os.Link(m, filepath.Join(d.dir, "mark0")))
		notify(filepath.Join(d.dir, "mark0"), fsnotify.Create)
		must(os.Remove(m))
		notify(m, fsnotify.Remove)
	case 4: // two at once
		d.write(filepath.Join(d.dir, "x.tram"), good)
		d.write(filepath.Join(d.dir, "y.tram"), good)
		d.jobs += 2
	case 5: // by moving over another
		d.move(out(), filepath.Join(d.dir, "mark1.tram"))
		d.jobs++
	}
	d.settle()
	d.client.Close()
	daemon.Close()
	sym.Reach("stopped")
}
