package main

// Native replay: the same harness, compiled against the real code, runs with
// the values the solver chose.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

type Replay struct {
	Property string     `json:"property"`
	Harness  string     `json:"harness"`
	Target   string     `json:"target"`
	Files    []string   `json:"files"`
	Shim     bool       `json:"shim"`
	Retries  int        `json:"retries"`
	Msg      string     `json:"msg"`
	Kind     string     `json:"kind"`
	Detail   string     `json:"detail,omitempty"`
	Tier     int        `json:"tier"`
	Inputs   []InputVal `json:"inputs"`
	Sched    []int      `json:"sched"`
	Points   []string   `json:"points,omitempty"`
}

type edit struct {
	pos, end int
	text     string
}

const vshimPath = modPath + "src/vharness/vshim"

// shimFiles rewrites the operation call sites of the ferryd packages.
func (e *Engine) shimFiles() map[string]string {
	out := map[string]string{}
	used := map[string]bool{}
	for _, p := range e.local {
		for _, f := range p.Syntax {
			tf := e.prog.Fset.File(f.Pos())
			if tf == nil || strings.Contains(tf.Name(), "zz_verif") || strings.HasSuffix(tf.Name(), "_test.go") {
				continue
			}
			src, err := os.ReadFile(tf.Name())
			if err != nil {
				continue
			}
			off := func(n ast.Node) (int, int) { return tf.Offset(n.Pos()), tf.Offset(n.End()) }
			var eds []edit
			ast.Inspect(f, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				var id *ast.Ident
				sel, _ := ast.Unparen(c.Fun).(*ast.SelectorExpr)
				if sel != nil {
					id = sel.Sel
				} else if i, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
					id = i
				} else {
					return true
				}
				fn, ok := p.TypesInfo.Uses[id].(*types.Func)
				if !ok {
					return true
				}
				name := fn.FullName()
				a, b := off(c.Fun)
				switch {
				case mutOps[name] != "":
					used[name] = true
					if strings.HasPrefix(name, "(*os/exec.Cmd)") && sel != nil {
						if _, isPtr := p.TypesInfo.TypeOf(sel.X).(*types.Pointer); isPtr {
							xa, xb := off(sel.X)
							eds = append(eds, edit{a, xa, fmt.Sprintf("vshim.W(%q, vshim.Cmd(", name)}, edit{xb, b, ")." + id.Name + ")"})
							return true
						}
					}
					eds = append(eds, edit{a, a, fmt.Sprintf("vshim.W(%q, ", name)}, edit{b, b, ")"})
				case strings.HasPrefix(name, ldb+".Open") || name == ldb+".Recover" || name == ldb+".RecoverFile":
					_, ce := off(c)
					eds = append(eds, edit{a, a, "vshim.Track("}, edit{ce, ce, ")"})
				case lockNames[name] && sel != nil:
					xa, xb := off(sel.X)
					amp, cl := "&(", ")"
					if _, isPtr := p.TypesInfo.TypeOf(sel.X).Underlying().(*types.Pointer); isPtr {
						amp = "("
					}
					_, ce := off(c)
					eds = append(eds, edit{a, xa, "vshim." + id.Name + "(" + amp}, edit{xb, ce, cl + ")"})
				}
				return true
			})
			if len(eds) == 0 {
				continue
			}
			pe := tf.Offset(f.Name.End())
			eds = append(eds, edit{pe, pe, fmt.Sprintf("; import vshim %q", vshimPath)})
			sort.SliceStable(eds, func(i, j int) bool {
				if eds[i].pos != eds[j].pos {
					return eds[i].pos < eds[j].pos
				}
				return eds[i].end < eds[j].end
			})
			var buf bytes.Buffer
			last := 0
			for _, ed := range eds {
				if ed.pos < last {
					continue
				}
				buf.Write(src[last:ed.pos])
				buf.WriteString(ed.text)
				last = ed.end
			}
			buf.Write(src[last:])
			out[tf.Name()] = buf.String()
		}
	}
	var kb strings.Builder
	kb.WriteString("package vshim\n\nfunc init() {\n")
	for _, k := range sortedKeys(mutOps) {
		fmt.Fprintf(&kb, "\tKinds[%q] = %q\n", k, mutOps[k])
	}
	kb.WriteString("}\n")
	out[filepath.Join(repoDir, "src/vharness/vshim/zz_kinds.go")] = kb.String()
	return out
}

var lockNames = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true,
	"(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
}

// Native builds replay binaries on demand.
type Native struct {
	eng  *Engine
	dir  string
	bins map[string]string
	errs map[string]error
	uid  uint32
	runs int
}

func newNative(e *Engine) (*Native, error) {
	d, err := os.MkdirTemp("", "vreplay-")
	if err != nil {
		return nil, err
	}
	os.Chmod(d, 0755)
	return &Native{eng: e, dir: d, bins: map[string]string{}, errs: map[string]error{}, uid: 65534}, nil
}

func (n *Native) Close() {
	if n != nil && strings.Contains(n.dir, "vreplay-") {
		filepath.Walk(n.dir, func(p string, fi os.FileInfo, err error) error {
			if fi != nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(n.dir)
	}
}

func (n *Native) build(target string, shim, race bool) (string, error) {
	key := fmt.Sprintf("%s-%v-%v", strings.ReplaceAll(target, "/", "_"), shim, race)
	if b := n.bins[key]; b != "" {
		return b, nil
	}
	if err := n.errs[key]; err != nil {
		return "", err
	}
	rep := map[string]string{}
	for dst, src := range n.eng.overlay {
		rep[dst] = src
	}
	if shim {
		sd := filepath.Join(n.dir, "src-"+key)
		os.MkdirAll(sd, 0755)
		i := 0
		for dst, txt := range n.eng.shimFiles() {
			i++
			p := filepath.Join(sd, fmt.Sprintf("f%d.go", i))
			if err := os.WriteFile(p, []byte(txt), 0644); err != nil {
				return "", err
			}
			rep[dst] = p
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(n.dir, "overlay-"+key+".json")
	os.WriteFile(ovf, j, 0644)
	bin := filepath.Join(n.dir, "bin-"+key)
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, target)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if race {
		cmd.Args = append([]string{"go", "build", "-race"}, cmd.Args[2:]...)
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	outp, err := cmd.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("native build of %s (shim=%v): %v\n%s", target, shim, err, outp)
		n.errs[key] = err
		return "", err
	}
	os.Chmod(bin, 0755)
	n.bins[key] = bin
	return bin, nil
}

// Outcome of one native run.
type Outcome struct {
	Status string // ok fail infeasible panic timeout error
	Msg    string
	Obs    []string
	Raw    string
}

func (n *Native) run(r *Replay) Outcome {
	race := r.Kind == "race"
	bin, err := n.build(r.Target, r.Shim && !race, race)
	if err != nil {
		return Outcome{Status: "error", Msg: err.Error()}
	}
	n.runs++
	wd, err := os.MkdirTemp(n.dir, "run-")
	if err != nil {
		return Outcome{Status: "error", Msg: err.Error()}
	}
	defer func() {
		filepath.Walk(wd, func(p string, fi os.FileInfo, err error) error {
			if fi != nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(wd)
	}()
	os.Chmod(wd, 0755)
	rf := filepath.Join(wd, "replay.json")
	j, _ := json.Marshal(r)
	os.WriteFile(rf, j, 0644)
	tmp := filepath.Join(wd, "tmp")
	os.Mkdir(tmp, 0755)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = tmp
	cmd.Env = []string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + tmp, "TMPDIR=" + tmp, "VREPLAY_HARNESS=" + r.Harness, "VREPLAY_FILE=" + rf, "TZ=UTC"}
	if race {
		cmd.Env = append(cmd.Env, "VREPLAY_FREE=1")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Getuid() == 0 {
		if err := os.Chown(tmp, int(n.uid), int(n.uid)); err != nil {
			return Outcome{Status: "error", Msg: "chown: " + err.Error()}
		}
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: n.uid, Gid: n.uid}
	}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	if cmd.Process != nil {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	o := Outcome{Status: "error", Raw: so.String() + se.String()}
	if ctx.Err() != nil {
		o.Status = "timeout"
		return o
	}
	if race {
		o.Status = "ok"
		if s := se.String(); concurrent(s, r.Msg) {
			o.Status, o.Msg = "panic", "concurrent access"
		}
		return o
	}
	for _, l := range strings.Split(so.String(), "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			o.Obs = append(o.Obs, l[4:])
		case l == "OK":
			o.Status = "ok"
		case strings.HasPrefix(l, "FAIL "):
			o.Status, o.Msg = "fail", l[5:]
		case strings.HasPrefix(l, "INFEASIBLE"):
			o.Status, o.Msg = "infeasible", l
		case strings.HasPrefix(l, "PANIC "):
			o.Status, o.Msg = "panic", l[6:]
		}
	}
	if o.Status == "error" {
		if err != nil {
			o.Msg = err.Error()
		}
		if s := se.String(); strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:") || strings.Contains(s, "unexpected fault address") {
			o.Status, o.Msg = "panic", firstLine(s)
		}
	}
	return o
}

// confirm replays a counterexample until it reproduces.
func (n *Native) confirm(r *Replay) (bool, Outcome) {
	k := r.Retries
	if k < 1 {
		k = 1
	}
	if r.Kind == "race" {
		k += 10
	}
	var o Outcome
	for i := 0; i < k; i++ {
		o = n.run(r)
		switch o.Status {
		case "fail":
			if o.Msg == r.Msg || !strings.HasPrefix(o.Msg, "setting up fails") {
				return true, o
			}
		case "panic":
			if r.Kind == "panic" || r.Kind == "deadlock" || r.Kind == "race" {
				return true, o
			}
		case "timeout":
			if r.Kind == "deadlock" {
				return true, o
			}
		case "error":
			return false, o
		}
	}
	return false, o
}

// concurrent: the race detector saw two unordered accesses of a map (or of a
// variable, if that is what was found), or the runtime ended the program because
// of them.
func concurrent(s, msg string) bool {
	if strings.Contains(s, "fatal error: concurrent map") {
		return true
	}
	for _, b := range strings.Split(s, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(b, "Previous "); i >= 0 {
			// the frame at the top of each stack
			f, g := firstFrame(b), firstFrame(b[i:])
			if strings.Contains(f, "runtime.map") && strings.Contains(g, "runtime.map") {
				return true
			}
			if msg == "data race" && strings.Contains(f, modPath+"src/") && strings.Contains(g, modPath+"src/") && !strings.Contains(f+g, "/vharness") {
				return true
			}
		}
	}
	return false
}

func firstFrame(s string) string {
	l := strings.SplitN(s, "\n", 3)
	for _, e := range l[1:] {
		if strings.Contains(e, "(") {
			return strings.SplitN(e, "\n", 2)[0]
		}
	}
	return ""
}
