// Package vshim is linked into replay binaries: the call sites of file system,
// database and process operations in ferryd are rewritten to go through W, so
// that a chosen operation can be made to fail or be the last one to happen.
package vshim

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/syndtr/goleveldb/leveldb/iterator"
)

var (
	mu      sync.Mutex
	mode    string
	target  int
	n       int
	hit     bool
	done    chan struct{}
	closers []io.Closer
	// Sched is the recorded schedule for RunPar.
	Sched []int
	// Points names the points of the schedule.
	Points []string
)

// Kinds of operation, mirrored from the engine: as there.
var Kinds = map[string]string{}

// Ops is the number of operations counted in the last armed region.
func Ops() int { return n }

// W wraps operation f called name.
func W[F any](name string, f F) F {
	kind := Kinds[name]
	v := reflect.ValueOf(f)
	t := v.Type()
	w := reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		parPoint(name)
		mu.Lock()
		if mode == "" || hit {
			mu.Unlock()
			return call(v, t, args)
		}
		if kind == "y" && mode != "during" || mode == "during" && owner != gid() || mode == "slow" && (owner == gid() || kind == "q") || name == "io.Copy" && inMemory(args[0]) {
			mu.Unlock()
			return call(v, t, args)
		}
		switch mode {
		case "crash":
			if kind == "f" || kind == "q" {
				break
			}
			if n == target {
				crashHere()
			}
			n++
			if kind == "t" {
				if n == target {
					torn(name, v, args)
					crashHere()
				}
				n++
			}
		case "during":
			i := n
			n++
			if i == target {
				hit = true
				mu.Unlock()
				probe()
				return call(v, t, args)
			}
		case "slow":
			i := n
			n++
			if i == target {
				hit = true
				d := delay
				mu.Unlock()
				time.Sleep(d)
				return call(v, t, args)
			}
		case "fault":
			i := n
			n++
			if i == target {
				hit = true
				fmt.Fprintf(os.Stderr, "fails: %s\n", name)
				if r, ok := faulty(t); ok {
					mu.Unlock()
					return r
				}
			}
		}
		mu.Unlock()
		return call(v, t, args)
	})
	return w.Interface().(F)
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

// inMemory: copying to a buffer involves no device.
func inMemory(dst reflect.Value) bool {
	_, ok := dst.Interface().(*bytes.Buffer)
	return ok
}

func faulty(t reflect.Type) ([]reflect.Value, bool) {
	if t.NumOut() == 1 && t.Out(0) == reflect.TypeOf((*iterator.Iterator)(nil)).Elem() {
		return []reflect.Value{reflect.ValueOf(iterator.NewEmptyIterator(errors.New("injected fault")))}, true
	}
	k := t.NumOut()
	if k == 0 || t.Out(k-1) != errType {
		return nil, false
	}
	var out []reflect.Value
	for i := 0; i < k-1; i++ {
		out = append(out, reflect.Zero(t.Out(i)))
	}
	e := reflect.New(errType).Elem()
	e.Set(reflect.ValueOf(errors.New("injected fault")))
	return append(out, e), true
}

func call(v reflect.Value, t reflect.Type, args []reflect.Value) []reflect.Value {
	var out []reflect.Value
	if t.IsVariadic() {
		out = v.CallSlice(args)
	} else {
		out = v.Call(args)
	}
	for _, o := range out {
		if !o.IsValid() || (o.Kind() == reflect.Pointer && o.IsNil()) {
			continue
		}
		if c, ok := o.Interface().(io.Closer); ok {
			mu.Lock()
			closers = append(closers, c)
			mu.Unlock()
		}
	}
	return out
}

// crashHere stops the calling goroutine for ever (mu held).
func crashHere() {
	hit = true
	d := done
	mu.Unlock()
	close(d)
	select {}
}

func torn(name string, v reflect.Value, args []reflect.Value) {
	switch name {
	case "os.WriteFile", "io/ioutil.WriteFile":
		os.WriteFile(args[0].String(), nil, 0644)
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
		// the method value's receiver is not reachable through reflection; the
		// rewritten call site registered it with Cmd
		c := lastCmd
		if c == nil {
			return
		}
		force, dec := false, false
		tool := path.Base(c.Args[0])
		suf := ".xz"
		if strings.Contains(tool, "zst") {
			suf = ".zst"
		}
		var files []string
		for i := 1; i < len(c.Args); i++ {
			a := c.Args[i]
			switch {
			case a == "-T":
				i++
			case a == "-f" || a == "--force":
				force = true
			case a == "-d":
				dec = true
			case strings.HasPrefix(a, "-"):
			default:
				files = append(files, a)
			}
		}
		if strings.HasPrefix(tool, "un") {
			dec = true
		}
		for _, f := range files {
			out := f + suf
			if dec {
				out = strings.TrimSuffix(f, suf)
			}
			if _, err := os.Lstat(out); err == nil {
				if !force {
					return
				}
				os.Remove(out)
			}
			os.WriteFile(out, []byte("???"), 0644)
		}
	}
}

var lastCmd *exec.Cmd

// Cmd remembers the command whose Run is about to be called.
func Cmd(c *exec.Cmd) *exec.Cmd {
	lastCmd = c
	return c
}

// Track remembers handles opened by the code under test.
func Track[T any](v T, err error) (T, error) {
	if c, ok := any(v).(io.Closer); ok && err == nil {
		mu.Lock()
		closers = append(closers, c)
		mu.Unlock()
	}
	return v, err
}

// RunCrash runs fn in a goroutine and abandons it at operation k.
func RunCrash(k int, fn func()) bool {
	mu.Lock()
	mode, target, n, hit = "crash", k, 0, false
	done = make(chan struct{})
	crashed := done
	mu.Unlock()
	fin := make(chan any, 1)
	go func() {
		defer func() { fin <- recover() }()
		fn()
	}()
	select {
	case <-crashed:
		mu.Lock()
		mode = ""
		cl := closers
		closers = nil
		mu.Unlock()
		for _, c := range cl {
			c.Close()
		}
		return true
	case r := <-fin:
		mu.Lock()
		mode = ""
		mu.Unlock()
		if r != nil {
			panic(r)
		}
		return false
	}
}

var (
	owner int64
	probe func()
	delay time.Duration
)

// RunSlow runs fn while operation k of other goroutines takes d.
func RunSlow(k int, d time.Duration, fn func()) bool {
	mu.Lock()
	mode, target, n, hit, owner, delay = "slow", k, 0, false, gid(), d
	mu.Unlock()
	defer func() {
		mu.Lock()
		mode = ""
		mu.Unlock()
	}()
	fn()
	mu.Lock()
	defer mu.Unlock()
	return hit
}

// RunDuring runs fn and, before its operation k, p.
func RunDuring(k int, fn, p func()) bool {
	mu.Lock()
	mode, target, n, hit, owner, probe = "during", k, 0, false, gid(), p
	mu.Unlock()
	defer func() {
		mu.Lock()
		mode = ""
		mu.Unlock()
	}()
	fn()
	return hit
}

// RunFault runs fn with operation k failing.
func RunFault(k int, fn func()) bool {
	mu.Lock()
	mode, target, n, hit = "fault", k, 0, false
	mu.Unlock()
	defer func() {
		mu.Lock()
		mode = ""
		mu.Unlock()
	}()
	fn()
	return hit
}
