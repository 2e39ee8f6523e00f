package vharness

import (
	"os"
	"path/filepath"
	"strconv"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/vharness/sym"
	_ "github.com/getsolus/ferryd/src/vharness/vmodel"
)

func init() {
	add("HLock", HLock)
	add("HLockRace", HLockRace)
	add("HLockClose", HLockClose)
}

// Lock is the daemon's lock file.
type Lock interface {
	Lock() error
	Unlock() error
	Clean() error
	GetOwnerPID() int
}

// Daemon is the daemon's server.
type Daemon interface {
	Bind() error
	Serve() error
	Close()
}

// Set by the bridge inside the daemon's package.
var (
	NewLock   func(path string) (Lock, error)
	NewDaemon func(base, sock string) (Daemon, error)
	ErrOwned  error
	// Command runs the command line client.
	Command func(args []string)
)

// contender is a process that wants the lock.
type contender struct {
	l    Lock
	held bool
}

// try takes the lock, as a starting daemon does.
func (c *contender) try(path string) error {
	l, err := NewLock(path)
	must(err)
	c.l = l
	err = l.Lock()
	c.held = err == nil
	return err
}

// leave gives up the lock, in one of the ways the API offers.
func (c *contender) leave(how int) {
	c.held = false
	if how == 1 {
		must(c.l.Unlock())
	}
	must(c.l.Clean())
}

func pid() string { return strconv.Itoa(os.Getpid()) }

// oldContent is what a lock file may hold that a dead process left.
func oldContent() string {
	switch sym.Choose("content", 7) {
	case 0:
		return sym.Chars("old", "019 -x\n", sym.Choose("length", 4))
	case 1:
		return "123456789"
	case 2:
		return strconv.Itoa(sym.OtherPID())
	case 3:
		return "99999999999999999999"
	case 4:
		return pid() + "0"
	case 5:
		return pid()
	}
	return string(make([]byte, 5000))
}

// HLock: C27, one lock file and its contenders.
func HLock() {
	path := filepath.Join(sym.Root(), []string{"lock", "new/dir/lock"}[sym.Choose("path", 2)])
	if sym.Choose("leftover", 2) == 1 {
		must(os.MkdirAll(filepath.Dir(path), 0755))
		must(os.WriteFile(path, []byte(oldContent()), 0644))
		sym.Reach("leftover")
	}
	var a, b, c contender
	err := a.try(path)
	sym.Assert(err == nil, "a lock file nobody holds never prevents a start")
	mine := func() {
		sym.Assert(content(path) == pid(), "the lock file holds exactly the owner's process ID")
	}
	mine()
	refused := func(x *contender) {
		err := x.try(path)
		sym.Assert(err != nil, "nobody else obtains a lock that is held")
		sym.Assert(err == ErrOwned, "a lock that is held is reported as such")
		if x.l != nil {
			sym.Assert(x.l.GetOwnerPID() == os.Getpid(), "the owner of a held lock is reported")
			switch sym.Choose("after", 3) {
			case 1:
				sym.Assert(x.l.Unlock() != nil, "only the owner can unlock")
			case 2:
				x.l.Clean()
			}
		}
		mine()
	}
	refused(&b)
	refused(&c)
	a.leave(sym.Choose("leave", 2))
	sym.Assert(c.try(path) == nil, "a lock that was given up can be obtained")
	mine()
	refused(&b)
	if sym.Choose("again", 2) == 1 {
		// whoever gave it up cannot take it away from its new owner
		a.l.Unlock()
		a.l.Clean()
		refused(&a)
	}
	c.leave(sym.Choose("leave", 2))
	sym.Assert(b.try(path) == nil, "a lock that was given up can be obtained")
	sym.Reach("passed on")
}

// HLockRace: C27, another process acts at any moment of taking or giving up
// the lock.
func HLockRace() {
	path := filepath.Join(sym.Root(), "lock")
	if sym.Choose("leftover", 2) == 1 {
		must(os.WriteFile(path, []byte("77 x"), 0644))
	}
	var a, b contender
	opened := sym.Choose("opened before", 2) == 1
	if opened {
		l, err := NewLock(path)
		must(err)
		b.l = l
	}
	enter := func() {
		if opened {
			b.held = b.l.Lock() == nil
		} else {
			b.try(path)
		}
		if b.held {
			sym.Assert(content(path) == pid(), "the lock file holds exactly the owner's process ID")
		}
	}
	probe := enter
	op := sym.Choose("operation", 3)
	early := op == 2 && sym.Choose("already", 2) == 1
	if early {
		enter()
		sym.Assert(b.held, "a lock file nobody holds never prevents a start")
		probe = func() { b.leave(0) }
	}
	how := sym.Choose("leave", 2)
	var err error
	switch op {
	case 0:
		sym.During(func() { err = a.try(path) }, probe)
	case 1:
		must(a.try(path))
		sym.During(func() { a.leave(how) }, probe)
	case 2:
		l, e := NewLock(path)
		must(e)
		a.l = l
		sym.During(func() { err = l.Lock() }, probe)
		a.held = err == nil
	}
	sym.Assert(!(a.held && b.held), "two processes never hold the lock at once")
	if op != 1 && !early {
		sym.Assert(a.held || b.held, "one of two contenders obtains the lock")
	}
	if !a.held && !b.held {
		var c contender
		sym.Assert(c.try(path) == nil, "a lock that was given up can be obtained")
		a = c
	}
	if a.held || b.held {
		sym.Assert(content(path) == pid(), "the lock file holds exactly the owner's process ID")
		var c contender
		sym.Assert(c.try(path) != nil, "nobody else obtains a lock that is held")
		sym.Reach("held")
	}
	if b.held {
		sym.Reach("second")
	}
}

// HLockClose: C27, the daemon gives up the lock only when it has stopped.
func HLockClose() {
	w := &World{Root: sym.Root(), Base: filepath.Join(sym.Root(), "base")}
	must(os.MkdirAll(w.Base, 0755))
	sock := filepath.Join(w.Root, "sock")
	d, err := NewDaemon(w.Base, sock)
	must(err)
	must(d.Bind())
	served := false
	go func() {
		d.Serve()
		served = true
	}()
	lock := filepath.Join(w.Base, "ferryd.lock")
	client := libferry.NewClient(sock)
	_, err = client.GetStatus()
	sym.Assert(err == nil, "the daemon serves requests")
	client.Close()
	sym.Assert(content(lock) == pid(), "the running daemon holds the lock")
	probe := func() {
		var c contender
		if c.try(lock) != nil {
			sym.Reach("still held")
			return
		}
		m, err := core.NewManager(w.Base)
		sym.Assert(err == nil, "the lock is held until the database is closed")
		s, err := jobs.NewStore(w.Base)
		sym.Assert(err == nil, "the lock is held until the job store is closed")
		sym.Assert(!exists(sock), "the lock is held until the socket is gone")
		s.Close()
		m.Close()
		c.leave(0)
		sym.Reach("free")
	}
	sym.During(func() { d.Close() }, probe)
	probe()
	sym.Assert(sym.Wait(1e9, func() bool { return served }), "a closed daemon stops serving")
}
