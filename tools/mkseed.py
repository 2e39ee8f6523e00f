#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/*.py and confirms each bug in a scratch copy of /repo.

usage: mkseed.py [ID...]   (all when none is given)
"""
import glob,json,os,shutil,subprocess,sys,tempfile
HERE=os.path.dirname(os.path.abspath(__file__))
SEEDED="/verif/seeded"
S=[]
def seed(id,prop,needs,breaks,edits,demo,pkg="core",helper="core_helper.go.txt",imports=()):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,pkg=pkg,helper=helper,imports=imports))
for f in sorted(glob.glob(HERE+"/seeds/*.py")): exec(open(f).read())
PKGDIR={"core":"src/ferryd/core","jobs":"src/ferryd/jobs","main":"src/ferryd","libdb":"src/libdb","libeopkg":"src/libeopkg","cmd":"src/ferryctl/cmd","libferry":"src/libferry"}
SH='''#!/bin/bash
# Runs the demonstration beside this script inside the package it concerns.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
export GOPATH=/root/go GOCACHE=/root/.cache/go-build
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
printf '{"Replace":{"%%s/%(dir)s/zz_demo_test.go":"%%s/demo_test.go","%%s/%(dir)s/zz_help_test.go":"%%s/help_test.go"}}' "$PWD" "$here" "$PWD" "$here" > "$T/overlay.json"
timeout 200 go test -vet=off -count=1 -overlay "$T/overlay.json" -run '^TestDemo$' ./%(dir)s
'''
def run(cmd,cwd,env=None,timeout=400):
    p=subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,timeout=timeout)
    return p.returncode,p.stdout
GOENV=". /tmp/env.sh; "
def one(s,keep):
    d=f"{SEEDED}/{s['id']}"
    tmp=tempfile.mkdtemp(prefix="seed-",dir="/tmp")
    repo=tmp+"/repo"
    subprocess.check_call(["cp","-a","/repo",repo])
    subprocess.check_call(["git","checkout","-q","--","."],cwd=repo)
    os.makedirs(d,exist_ok=True)
    imp=["testing"]+list(s["imports"])
    open(d+"/demo_test.go","w").write("package "+s["pkg"]+"\n\nimport (\n"+"".join(f'\t"{i}"\n' for i in sorted(imp))+")\n\n"+s["demo"].strip()+"\n")
    open(d+"/help_test.go","w").write(open(HERE+"/seeds/"+s["helper"]).read())
    open(d+"/demo.sh","w").write(SH%dict(dir=PKGDIR[s["pkg"]])); os.chmod(d+"/demo.sh",0o755)
    run(GOENV+f"gofmt -w {d}/*.go","/tmp")
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    res=[]
    rc,out=run(f"bash {d}/demo.sh",repo)
    if rc!=0: res.append("DEMO FAILS ON CLEAN:\n"+out[-1500:])
    for f,a,b in s["edits"]:
        p=repo+"/"+f; t=open(p).read()
        if t.count(a)!=1: res.append(f"edit matches {t.count(a)} times: {a[:60]}")
        open(p,"w").write(t.replace(a,b,1))
    rc,out=run(GOENV+"go build ./... && go vet ./src/ferryd/... >/dev/null; rm -rf src/ferryd/core/testenv src/libeopkg/TESTING/x; go test -vet=off -count=1 ./... 2>&1",repo)
    bad=[l for l in out.splitlines() if l.startswith("--- FAIL")]
    if "build failed" in out or bad: res.append("BUILD/TESTS: "+out[-800:])
    rc,out=run(f"bash {d}/demo.sh",repo)
    if rc==0: res.append("DEMO PASSES WITH BUG")
    elif "--- FAIL: TestDemo" not in out and "panic:" not in out: res.append("DEMO fails otherwise:\n"+out[-800:])
    rc,diff=run("git checkout -q -- src/ferryd/core/testenv src/libeopkg/TESTING 2>/dev/null; git diff -- '*.go'",repo)
    open(d+"/patch.diff","w").write(diff)
    shutil.rmtree(tmp)
    print(s["id"],"OK" if not res else "BAD "+"\n   ".join(res),flush=True)
    if not res: print("    ",[l for l in out.splitlines() if "_test.go:" in l or "panic:" in l][:1])
ids=sys.argv[1:]
for s in S:
    if not ids or s["id"] in ids: one(s,False)
