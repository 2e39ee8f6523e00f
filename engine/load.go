package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "HOME", "CGO_ENABLED", "GOPROXY", "GOTOOLCHAIN", "GOFLAGS", "GOPATH", "GOCACHE", "GOMAXPROCS":
			continue
		}
		env = append(env, e)
	}
	return append(env, "HOME=/root", "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod -buildvcs=false", "GOPATH=/root/go", "GOCACHE=/root/.cache/go-build")
}

// overlayFiles maps paths inside /repo to harness sources: the support packages,
// the common files and the wanted harness files (relative to /verif/harness).
func overlayFiles(want map[string]bool) map[string]string {
	m := map[string]string{}
	base := filepath.Join(verifDir, "harness")
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		if strings.HasPrefix(rel, "inpkg/") {
			if !want[rel] {
				return nil
			}
			// inpkg/<path with __>/zz_verif_x.go goes inside the package itself
			parts := strings.SplitN(rel[len("inpkg/"):], "/", 2)
			m[filepath.Join(repoDir, strings.ReplaceAll(parts[0], "__", "/"), parts[1])] = p
			return nil
		}
		if !strings.Contains(rel, "/") && rel != "all.go" && !want[rel] {
			return nil
		}
		m[filepath.Join(repoDir, "src/vharness", rel)] = p
		return nil
	})
	return m
}

func load(want map[string]bool) (*Engine, error) {
	ov := map[string][]byte{}
	files := overlayFiles(want)
	pats := map[string]bool{"./src/vharness": true, "./src/vharness/vrun": true}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
		if strings.Contains(src, "/inpkg/") {
			rel, _ := filepath.Rel(repoDir, filepath.Dir(dst))
			pats["./"+rel] = true
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: ov}
	pkgs, err := packages.Load(cfg, sortedKeys(pats)...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	e := &Engine{pkgs: map[string]*ssa.Package{}, maxSteps: 60_000_000, solver: defaultSolver(), qtimeout: 8000, overlay: files}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		if !strings.HasPrefix(p.PkgPath, modPath+"src/vharness") {
			e.local = append(e.local, p)
		}
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d load errors", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	return e, nil
}

// defaultSolver prefers the newer z3 release.
func defaultSolver() string {
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}
