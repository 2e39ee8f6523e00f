#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl, harness/checks.json and tools/notes.json.
import json,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
props=[json.loads(l) for l in open("properties.jsonl")]
checks={c["id"]:c for c in json.load(open("harness/checks.json"))}
na=json.load(open("tools/not_applicable.json"))
out={"version":1,
 "setup_cmd":"bash setup.sh",
 "checks":[],"not_applicable":[],
 "notes":"One engine (engine/) executes the Go SSA of /repo and of the harnesses (harness/) symbolically; z3 decides every branch and assertion; candidates are replayed against the compiled code before they are reported. See DESIGN.md."}
for p in props:
    i=p["id"]
    c=checks.get(i)
    if c:
        b=c["bounds"]
        bt="; ".join(f"{k}: {v}" for k,v in b.items()) if isinstance(b,dict) else str(b)
        out["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":"symbolic execution of the Go SSA of the real code, assertions decided by z3 (bit-vectors), counterexamples replayed natively",
          "level":"model_checking","level_note":f"Bounded: {bt}. Outside: {c['outside']}. Trusted: SSA interpreter and its models of the file system, leveldb, hashing, compression and encoders, checked by native replay of sampled paths."})
    else:
        out["not_applicable"].append({"property":i,"reason":na.get(i,"check still under construction")})
json.dump(out,open("MANIFEST.json","w"),indent=1)
