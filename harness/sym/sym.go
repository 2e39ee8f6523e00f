// Package sym is the interface between harnesses and the symbolic engine.
//
// Under the engine every function here is an intrinsic. Natively (replay and
// validation) the same harness runs against the compiled code with the values
// the solver chose, read from a file in the order they were requested.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/vharness/vshim"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    uint64 `json:"v"`
}

type file struct {
	Tier   int      `json:"tier"`
	Inputs []input  `json:"inputs"`
	Sched  []int    `json:"sched"`
	Points []string `json:"points"`
}

var (
	cur  file
	pos  int
	root string
	obs  []string
)

// Load reads the recorded values (native only).
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if err = json.Unmarshal(b, &cur); err != nil {
		return err
	}
	vshim.Sched, vshim.Points = cur.Sched, cur.Points
	root, err = os.MkdirTemp("", "vferry-")
	return err
}

// Cleanup removes the scratch directory (native only).
func Cleanup() {
	if root != "" && strings.HasPrefix(root, os.TempDir()) {
		os.RemoveAll(root)
	}
	for _, d := range elsewhere {
		if strings.HasPrefix(d, "/dev/shm/vferry-") {
			os.RemoveAll(d)
		}
	}
}

// Observations returns what the harness observed (native only).
func Observations() []string { return obs }

// Failure is the panic value of a failed assertion (native only).
type Failure struct{ Msg string }

// Infeasible is the panic value of a failed assumption (native only).
type Infeasible struct{ Msg string }

func next(label, kind string) uint64 {
	if pos >= len(cur.Inputs) {
		// values past the recorded prefix are unconstrained
		pos++
		return 0
	}
	in := cur.Inputs[pos]
	if in.Name != label {
		panic(Infeasible{fmt.Sprintf("replay diverged: want %s, recorded %s", label, in.Name)})
	}
	pos++
	return in.V
}

// Tier is 0 for quick, 1 for thorough.
func Tier() int { return cur.Tier }

// Int is any integer in [lo, hi].
func Int(label string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	if pos >= len(cur.Inputs) {
		pos++
		return lo
	}
	return int(int64(next(label, "int")))
}

// Uint64 is any 64-bit value.
func Uint64(label string) uint64 { return next(label, "u64") }

// Byte is any byte.
func Byte(label string) byte { return byte(next(label, "byte")) }

// Bool is any boolean.
func Bool(label string) bool { return next(label, "bool") != 0 }

// Choose is any integer in [0, n), decided on the spot (one path per value).
func Choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(label, "choose"))
}

// String is any string of n bytes.
func String(label string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fmt.Sprintf("%s.%d", label, i), "byte"))
	}
	return string(b)
}

// Chars is any string of n bytes drawn from the alphabet.
func Chars(label, alphabet string, n int) string {
	b := make([]byte, n)
	for i := range b {
		if pos >= len(cur.Inputs) {
			b[i] = alphabet[0]
		}
		b[i] = byte(next(fmt.Sprintf("%s.%d", label, i), "byte"))
	}
	return string(b)
}

// Concrete forks over the values of x.
func Concrete(x int) int { return x }

// ConcreteStr forks over the values of s.
func ConcreteStr(s string) string { return s }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Infeasible{"assumption"})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

// Reach marks a point that some path must reach (vacuity guard).
func Reach(tag string) {}

// Observe records a value to be compared between the model and the code.
func Observe(label string, v any) { obs = append(obs, label+"="+show(reflect.ValueOf(v))) }

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Bool, reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8, reflect.Uint64, reflect.Uint, reflect.Uint32, reflect.Uint16, reflect.Int16, reflect.Int8:
		return fmt.Sprint(v.Interface())
	case reflect.Slice:
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, show(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Interface:
		return show(v.Elem())
	}
	return fmt.Sprintf("<%s>", v.Type())
}

// And, Or, Not and Implies build conditions without branching.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }

// Ite is a branch-free conditional.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Root is a private empty directory.
func Root() string { return root }

// Symbolic reports whether the engine is executing.
func Symbolic() bool { return false }

// MapOrder makes every map iteration order of the code under test a choice.
func MapOrder(on bool) {}

// Crash runs fn and kills it at a solver-chosen operation: everything it held
// in memory is lost, its files stay. It reports whether the crash happened.
func Crash(fn func()) bool {
	return vshim.RunCrash(int(next("crash", "op")), fn)
}

// Fault runs fn with a solver-chosen operation failing. It reports whether the
// fault was injected.
func Fault(fn func()) bool {
	return vshim.RunFault(int(next("fault", "op")), fn)
}

// During runs fn and lets probe happen, all at once, just before a
// solver-chosen operation of fn. It reports whether it happened.
func During(fn, probe func()) bool {
	return vshim.RunDuring(int(next("during", "op")), fn, probe)
}

// Slow runs fn while a solver-chosen operation of another goroutine takes d. It
// reports whether there was one.
func Slow(d time.Duration, fn func()) bool {
	return vshim.RunSlow(int(next("slow", "op")), d, fn)
}

// OtherPID is the ID of a live process of the same user that is not ours.
func OtherPID() int {
	c := exec.Command("/bin/sleep", "100")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		panic(Infeasible{err.Error()})
	}
	return c.Process.Pid
}

// Par runs fns concurrently to completion with at most preempt preemptions.
func Par(preempt int, fns ...func()) {
	vshim.RunPar(preempt, fns)
}

// Panics runs fn and reports whether it panicked.
func Panics(fn func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Failure, Infeasible:
				panic(r)
			}
			p = true
		}
	}()
	fn()
	return false
}

// Wait lets background work proceed until cond holds or the (virtual) time
// limit passes; it reports cond.
func Wait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for !cond() {
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(10 * time.Millisecond)
	}
	return true
}

// Markup has XML documents written as the text they are, character by
// character (they may contain symbolic characters outside ASCII).
func Markup() {}

// Elsewhere puts a new directory on another file system.
func Elsewhere(path string) {
	d, err := os.MkdirTemp("/dev/shm", "vferry-*")
	if err == nil {
		err = os.Symlink(d, path)
	}
	if err != nil {
		panic(Infeasible{err.Error()})
	}
	elsewhere = append(elsewhere, d)
}

var elsewhere []string

// BadDir makes a directory unreadable for listing.
func BadDir(path string) { os.Chmod(path, 0) }

// Ops returns how many operations the last Crash or Fault region performed.
func Ops() int { return vshim.Ops() }
