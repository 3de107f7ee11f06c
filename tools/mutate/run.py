#!/usr/bin/env python3
"""run.py OUT.jsonl WORKERS STRIDE OFFSET [file...]: runs the checks against mutants of /repo (scratch copies) and
records which of them none of the relevant checks sees although the stable tests pass."""
import json, os, random, shutil, subprocess, sys, threading, queue, time
out, workers, stride, offset = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
files=sys.argv[5:]
env0=dict(os.environ, PATH="/usr/local/go/bin:"+os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
CHECKS={
 "date.go":"C28 C02 C26","settings_cache.go":"C10 C09 C21","mapping_cache.go":"C09",
 "parse.go":"C06 C07 C01 C02 C03 C26 C11 C12 C08 C23","font.go":"C02 C11 C12 C15 C13 C03 C23 C08 C06 C01 C04 C16 C17 C29 C09",
 "glyph.go":"C01 C16 C25","builder/font_builder.go":"C26 C03 C12 C01 C25 C24 C13 C11 C23",
 "builder/font_builder_color.go":"C03 C25","builder/font_builder_mapping.go":"C08 C25 C01",
 "builder/font_builder_props.go":"C02 C28 C29 C25","builder/font_builder_rewrite_condition.go":"C25",
 "builder/font_builder_rewrite_rules.go":"C23 C25 C24","builder/font_builder_rewrite_sets.go":"C24 C23 C25",
 "builder/font_builder_settings.go":"C13 C25","builder/font_builder_subtypes.go":"C26 C25","builder/helpers.go":"C23 C25 C26",
 "internal/circular_buffer.go":"C27 C16 C18","internal/helpers.go":"C13 C29 C02 C01 C27 C26 C24 C25 C08 C16",
 "internal/parsing_buffer.go":"C07 C06 C01 C29 C26","internal/single_instance_pool.go":"C22",
 "mask/":"C04 C05","internal/rerules/glyphrule/":"C20 C19 C21 C18 C16 C22","internal/rerules/utf8rule/":"C20 C19 C21 C18 C17 C22"}
def checks(f):
    for k,v in CHECKS.items():
        if f==k or (k.endswith("/") and f.startswith(k)): return v.split()
    return []
os.chdir("/repo")
if not files:
    files=subprocess.run("ls *.go builder/*.go internal/*.go mask/*.go internal/rerules/*/*.go | grep -v _test",shell=True,capture_output=True,text=True).stdout.split()
muts=[]
for f in files:
    if not checks(f): continue
    o=subprocess.run(["/tmp/w/mutate",f],capture_output=True,text=True).stdout.splitlines()
    muts+=[m for m in map(json.loads,o) if m['new'].startswith(os.environ.get('ONLY','')) and 'err != nil' not in m['new'] and 'traceParsing' not in m['new']]
random.Random(7).shuffle(muts); muts=muts[offset::stride]
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add((d["file"],d["start"],d["end"],d["new"]))
q=queue.Queue()
for m in muts:
    if (m["file"],m["start"],m["end"],m["new"]) not in done: q.put(m)
print(q.qsize(),"mutants",flush=True)
lock=threading.Lock()
def work(k):
    W=f"/tmp/w/mw{k}"; shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
    R=W+"/repo"; subprocess.run(["cp","-a","/repo",R]); shutil.rmtree(R+"/.git",ignore_errors=True)
    subprocess.run(f"cp -a /verif/mc {W}/src && sed 's#=> /repo#=> {R}#' /verif/mc/go.mod > {W}/go.mod",shell=True)
    env=dict(env0,GOCACHE=W+"/cache",TMPDIR=W+"/tmp",GOMAXPROCS="4"); os.makedirs(W+"/tmp")
    n=0
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        n+=1
        if n%150==0: shutil.rmtree(W+"/cache",ignore_errors=True)
        p=R+"/"+m["file"]; src=open("/repo/"+m["file"],"rb").read()
        open(p,"wb").write(src[:m["start"]]+m["new"].encode()+src[m["end"]:])
        res="survived"; by=""
        try:
            bins={}
            for c in checks(m["file"]):
                cmd={"C27":"mcring","C14":"mcbuild","C22":"mcsched"}.get(c,"mc")
                if cmd=="mcsched":
                    r=subprocess.run(["bash","/verif/run.sh",c,"quick"],env=dict(env,VERIF_REPO=R,VERIF_OUT=W+"/out"),capture_output=True,text=True,timeout=600)
                else:
                    if cmd not in bins:
                        b=subprocess.run(["go","build",f"-modfile={W}/go.mod","-o",f"{W}/{cmd}",f"./cmd/{cmd}"],cwd=W+"/src",env=env,capture_output=True,text=True)
                        if b.returncode: res="nobuild"; break
                        bins[cmd]=1
                    try: r=subprocess.run([f"{W}/{cmd}","-check",c,"-tier","quick","-out",W+"/out"],cwd="/verif",env=env,capture_output=True,text=True,timeout=400)
                    except subprocess.TimeoutExpired: res="timeout"; by=c; break
                if r.returncode!=0:
                    res="caught" if r.returncode==1 and "VIOLATION" in r.stdout else f"rc{r.returncode}"; by=c
                    if res!="caught": m["out"]=(r.stdout+r.stderr)[-600:]
                    break
            if res=="survived":
                t=subprocess.run("go test -json -vet=off -count=1 -timeout 60s ./...",shell=True,cwd=R,env=env,capture_output=True,text=True)
                passed=set()
                for l in t.stdout.splitlines():
                    try: e=json.loads(l)
                    except Exception: continue
                    if e.get("Action")=="pass" and "Test" in e: passed.add(e["Package"]+"/"+e["Test"])
                if stable-passed: res="tests"
        except Exception as e: res="error "+repr(e)[:200]
        open(p,"wb").write(src)
        m["res"]=res; m["by"]=by
        with lock:
            open(out,"a").write(json.dumps(m)+"\n")
ts=[threading.Thread(target=work,args=(k,)) for k in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
print("done")
