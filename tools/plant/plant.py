#!/usr/bin/env python3
"""Plants bugs: writes /verif/seeded/<id>/ from the specifications in bugs*.py and
confirms in scratch copies that the bug builds, passes the stable tests and fails
its demonstration. With -c, it also runs the simulation against the bug.
Usage: plant.py [-c] [-n RUNS] [-f] ID...|all"""
import sys,os,subprocess,json,shutil,glob,tempfile,importlib.util,re
from concurrent.futures import ThreadPoolExecutor
ROOT=os.path.abspath(os.path.join(os.path.dirname(__file__),"../.."))
S=os.path.join(ROOT,"seeded")
ENV=dict(os.environ,HOME="/root",GOENV="off",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",GOMODCACHE="/root/go/pkg/mod",GOCACHE="/root/.cache/go-build")
BASE=json.load(open("/opt/vp/BASELINE.json"))
DEMO='''#!/bin/bash
# Fails if the bug is there. Runs in a checkout of kache.
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$(pwd -P)
echo "{\\"Replace\\":{\\"$R/%(pkg)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/overlay.json"
go test %(race)s-vet=off -overlay "$T/overlay.json" -count=1 -timeout 200s -run '^TestPlanted' ./%(pkg)s
'''
def load():
    b={}
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)),'bugs*.py'))):
        sp=importlib.util.spec_from_file_location("b",f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for x in m.BUGS: assert x["id"] not in b,x["id"]; b[x["id"]]=x
    return b
def sh(c,cwd,t=600,env=ENV):
    try: r=subprocess.run(c,cwd=cwd,capture_output=True,text=True,timeout=t,env=env)
    except subprocess.TimeoutExpired as e: return 124,"timeout"
    return r.returncode,r.stdout+r.stderr
def copy():
    d=tempfile.mkdtemp(prefix="plant-",dir="/tmp")
    sh(["git","clone","-q","--shared","/repo",d+"/r"],"/tmp"); return d
def tests(w):
    rc,out=sh(["go","test","-json","-vet=off","-count=1","-timeout","10m","./..."],w)
    bad=set(); ok=set()
    for l in out.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get("Test") and e.get("Action") in("pass","fail"): (ok if e["Action"]=="pass" else bad).add(e["Package"]+"/"+e["Test"])
    return ok,bad,out
def stable():
    if "stable" in BASE: l=BASE["stable"]
    else: l=next(v for v in BASE.values() if isinstance(v,list))
    return l
def plant(x,force=False,check=False,runs=0):
    i,r=plant1(x,force,check,runs)
    if not r.startswith("ok"): shutil.rmtree(os.path.join(S,i),ignore_errors=True)
    return i,r
def plant1(x,force,check,runs):
    i=x["id"]; d=os.path.join(S,i); os.makedirs(d,exist_ok=True)
    tmp=copy(); w=tmp+"/r"
    try:
        open(d+"/demo_test.go","w").write(x["demo"]); open(d+"/demo.sh","w").write(DEMO%{"pkg":x["pkg"],"race":"-race " if x.get("race") else ""}); os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":x["property"],"needs":x["needs"],"what_it_breaks":x["breaks"]},open(d+"/meta.json","w"),indent=1)
        rc,out=sh(["bash",d+"/demo.sh"],w)
        if rc: return i,"demo fails on the clean tree: "+out[-1500:]
        for f,o,n in x["edits"]:
            p=os.path.join(w,f); s=open(p).read()
            if s.count(o)!=1: return i,f"{f}: {s.count(o)} matches of {o[:60]!r}"
            open(p,"w").write(s.replace(o,n))
        rc,out=sh(["gofmt","-l","pkg","cmd"],w)
        if out.strip(): return i,"gofmt: "+out
        rc,diff=sh(["git","diff"],w); open(d+"/patch.diff","w").write(diff)
        # original lines must change
        rc,out=sh(["go","build","./..."],w)
        if rc: return i,"does not build: "+out[-800:]
        orig=0
        for f in {f for f,_,_ in x["edits"]}:
            _,bl=sh(["git","blame","-s","HEAD","--",f],w)
            base=sh(["git","log","--format=%h","--reverse"],w)[1].split()[0]
            lines=bl.splitlines(); 
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ",sh(["git","diff","-U0","--",f],w)[1],re.M):
                a,n=int(m[1]),int(m[2] or 1)
                orig+=sum(1 for l in lines[a-1:a-1+n] if l.startswith("^"+base[:6]))
        ok,bad,out=tests(w)
        st=set(str(s) for s in stable())
        bad=st-ok
        if bad: return i,"tests fail: "+", ".join(sorted(bad))[:600]
        rc,out=sh(["bash",d+"/demo.sh"],w)
        if rc==0: return i,"demo passes with the bug"
        note=f"ok (changes {orig} original lines)" if orig else "CHANGES NO ORIGINAL LINE"
        if check: note+="; "+catch(i,x["property"],w,tmp,runs)
        return i,note
    finally: shutil.rmtree(tmp,ignore_errors=True)
def catch(i,prop,w,tmp,runs):
    env=dict(ENV,SIM_REPO=w,SIM_OUT=tmp+"/b",SIMCHECK_VERIF=ROOT,VERIF_SEED="1")
    os.makedirs(tmp+"/b",exist_ok=True)
    sc=tmp+"/b/simcheck"
    rc,out=sh(["go","build","-o",sc,"./simcheck"],ROOT+"/tools",300,dict(ENV,GOFLAGS=""))
    if rc: return out
    a=[sc,"-prop",prop,"-tier","quick","-noshrink"]
    if runs: a+=["-runs",str(runs)]
    rc,out=sh(a,ROOT,1500,env)
    if rc==1:
        m=re.search(r"^([^\n]*)\nseed (\d+),.*\nVIOLATION property=(\S+)",out,re.M)
        return f"CAUGHT by {m[3]} after {int(m[2])%10000000+1} runs: {m[1][:200]}" if m else "CAUGHT? "+out[-500:]
    if rc==0:
        e=json.load(open(tmp+"/b/evidence/"+prop+".json"))
        return f"MISSED in {e['coverage']['evaluations']} runs"
    return f"NO ANSWER rc={rc}: "+out[-600:]
if __name__=="__main__":
    a=sys.argv[1:]; check="-c" in a; runs=0
    if "-n" in a: k=a.index("-n"); runs=int(a[k+1]); del a[k:k+2]
    a=[y for y in a if not y.startswith("-")]
    B=load()
    ids=list(B) if a==["all"] else [y for y in B if any(y==z or y.startswith(z) for z in a)]
    if check:
        for i in ids: print(*plant(B[i],check=True,runs=runs),flush=True)
    else:
        with ThreadPoolExecutor(3) as e:
            for r in e.map(lambda i:plant(B[i]),ids): print(*r,flush=True)
