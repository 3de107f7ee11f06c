#!/usr/bin/env python3
"""mkseed.py FILE.py: makes planted bugs. FILE.py defines SEEDS, a list of dicts with
id, property, needs, breaks, edits [(file, old, new)...], demo (Go program, exits non zero on failure).
Each is confirmed in a scratch copy of /repo; the check of its property is run against it."""
import json, os, re, runpy, shutil, subprocess, sys
env=dict(os.environ, PATH="/usr/local/go/bin:"+os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0: fine, non zero: broken
export PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/demo" && cp "$here/demo.go.txt" "$t/demo/main.go" || exit 2
printf 'module github.com/tinne26/ggfnt/demo\\n\\ngo 1.21.1\\n\\nrequire github.com/tinne26/ggfnt v0.0.0\\n\\nreplace github.com/tinne26/ggfnt => %s\\n' "$repo" > "$t/demo/go.mod"
cd "$t/demo" && go build%s -o "$t/prog" . || exit 2
cd "$t" && timeout 120 "$t/prog" || exit 1
'''
W="/tmp/w/seed"
def sh(cmd,cwd=None,**k): return subprocess.run(cmd,shell=True,cwd=cwd,env=env,capture_output=True,text=True,**k)
stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
only=sys.argv[2:]
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if only and s["id"] not in only: continue
    shutil.rmtree(W,ignore_errors=True); shutil.copytree("/repo",W)
    bad=None; orig=False
    for f,old,new in s["edits"]:
        p=os.path.join(W,f); t=open(p).read()
        if t.count(old)!=1: bad=f"edit of {f}: {t.count(old)} matches: {old!r}"; break
        open(p,"w").write(t.replace(old,new))
    if bad: print(s["id"],"BAD",bad); continue
    d=sh("git diff",W).stdout
    # at least one removed line must be original
    for f,old,new in s["edits"]:
        bl=sh(f"git blame -l {f} HEAD --",W).stdout or sh(f"git blame -l HEAD -- {f}",W).stdout
        base={l.split(") ",1)[1] if ") " in l else "" for l in bl.splitlines() if l.lstrip("^").startswith("83be288")}
        rm=[l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
        if any(l in base and l.strip() for l in rm): orig=True
        if not rm and not orig: pass
    if not orig: print(s["id"],"WARN: no original line removed")
    b=sh("go build ./... && go vet ./... >/dev/null 2>&1; go test -json -vet=off -count=1 ./...",W)
    passed=set()
    for l in b.stdout.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get("Action")=="pass" and "Test" in e: passed.add(e["Package"]+"/"+e["Test"])
    miss=stable-passed
    if miss: print(s["id"],"BAD stable tests fail:",sorted(miss),b.stderr[:300]); continue
    D="/verif/seeded/"+s["id"]; os.makedirs(D,exist_ok=True)
    open(D+"/patch.diff","w").write(d)
    open(D+"/demo.sh","w").write(DEMO % (s.get("flags",""),) if False else DEMO.replace("go build%s","go build"+s.get("flags","")).replace("\\\\n","\\n"))
    open(D+"/demo.go.txt","w").write(s["demo"])
    json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(D+"/meta.json","w"),indent=1)
    g=sh(f"bash {D}/demo.sh","/repo"); w=sh(f"bash {D}/demo.sh",W)
    if g.returncode!=0 or w.returncode in (0,2):
        print(s["id"],"BAD demo: repo",g.returncode,g.stdout[-300:],g.stderr[-500:],"patched",w.returncode,w.stdout[-300:],w.stderr[-500:]); shutil.rmtree(D); continue
    if not s.get("nocheck"):
        c=subprocess.run(f"bash /verif/run.sh {s['property']} quick",shell=True,env=dict(env,VERIF_REPO=W,VERIF_OUT="/tmp/w/out"),capture_output=True,text=True)
        v=[l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        try: cj=json.load(open("/verif/tools/caught.json"))
        except FileNotFoundError: cj={}
        cj[s["id"]]="yes" if c.returncode==1 and v else "no"
        json.dump(cj,open("/verif/tools/caught.json","w"),indent=1,sort_keys=True)
        print(s["id"],"CAUGHT" if c.returncode==1 and v else f"MISSED rc={c.returncode}",(c.stdout.splitlines() or [""])[-1][:200] if not v else v[0][:200], w.stdout.strip()[:120])
    else: print(s["id"],"kept")
