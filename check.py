#!/usr/bin/env python3
"""check.py <property> [--thorough] [--only SCENARIO] | --replay FILE | --list | --setup

Builds the property's harness from /repo's current tree, explores every scenario of it with the
model checker runtime (mc/mcrt.cpp), writes evidence/<property>.json and prints VIOLATION lines."""
import sys, os, json, subprocess, hashlib, time, shutil
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("MC_REPO","/repo")
BUILD=os.environ.get("MC_BUILD",os.path.join(V,"build"))
sys.path.insert(0,V)
from checks_cfg import CHECKS, LIBS, ASSUME
JOBS=min(8,os.cpu_count() or 8)
T0=time.time()
TSAN=["-fsanitize=thread","--param","tsan-instrument-func-entry-exit=0"]
BASE=["g++","-std=c++20","-g1","-w","-ftemplate-depth=400","-I"+REPO,"-I"+V+"/mc","-I"+V+"/h"]

def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def fhash(p,memo={}):
    if p not in memo:
        try: memo[p]=hashlib.sha256(open(p,"rb").read()).hexdigest()
        except OSError: memo[p]="missing"
    return memo[p]
def compile_one(src,flags,obj):
    """compile unless an object of exactly the same inputs exists"""
    cmd=BASE+flags+["-MMD","-MF",obj+".d","-c",src,"-o",obj]
    key=obj+".key"
    if os.path.exists(obj) and os.path.exists(key):
        try:
            k=json.load(open(key))
            if k["cmd"]==cmd and all(fhash(f)==h for f,h in k["deps"].items()): return None
        except Exception: pass
    r=sh(cmd)
    if r.returncode: return "compile error in %s:\n%s"%(src,r.stdout[-6000:])
    deps=open(obj+".d").read().replace("\\\n"," ").split(":",1)[1].split()
    json.dump({"cmd":cmd,"deps":{d:fhash(d) for d in deps if d.startswith((V,REPO))}},open(key,"w"))
    return None
def build(prop):
    """-> list of executables. Sources named *_seq.cpp are built without instrumentation, into an executable of their own
    (template instantiations of instrumented and plain code must not be merged by the linker)"""
    os.makedirs(BUILD,exist_ok=True)
    c=CHECKS[prop]; mcrt=os.path.join(BUILD,"mcrt.o"); jobs=[(os.path.join(V,"mc/mcrt.cpp"),["-O2","-fno-threadsafe-statics","-fno-omit-frame-pointer"],mcrt)]; groups={}
    for s in c["src"]:
        fx=[]; tag=""
        if isinstance(s,tuple): fx=s[1]; tag="_"+hashlib.md5(" ".join(s[1]).encode()).hexdigest()[:6]; s=s[0]
        seq=s.endswith("_seq.cpp")
        fl=(["-O0","-g0","-D_GLIBCXX_ASSERTIONS"] if seq else ["-O1"]+TSAN)+c.get("flags",[])+fx
        o=os.path.join(BUILD,prop+"_"+os.path.basename(s).rsplit(".",1)[0]+tag+".o")
        jobs.append((os.path.join(V,"h",s),fl,o)); groups.setdefault("seq" if seq else "mt",[]).append(o)
    with ThreadPoolExecutor(JOBS) as ex: errs=[e for e in ex.map(lambda j:compile_one(*j),jobs) if e]
    if errs: print("\n".join(errs)); return None
    exes=[]
    for g,objs in groups.items():
        exe=os.path.join(BUILD,prop+"."+g+".exe"); r=sh(["g++",mcrt]+objs+["-o",exe]+c.get("libs",[])+LIBS)
        if r.returncode: print("link error:\n"+r.stdout[-4000:]); return None
        exes.append(exe)
    return exes
def scenarios(exes):
    out=[]
    for e in exes:
        for l in sh([e,"--list"]).stdout.splitlines():
            if l.strip(): out.append((e,)+tuple(l.split()))
    return out
def known_findings():
    out=[]
    p=os.path.join(V,"KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith("known:"):
                head,desc=l[6:].split("::",1); d=dict(x.split("=",1) for x in head.split(" | ") for x in [x.strip()]); d["what"]=desc.strip(); out.append(d)
    return out
def main():
    a=sys.argv[1:]
    if "--list" in a:
        for p in CHECKS: print(p,CHECKS[p]["src"])
        return 0
    if "--setup" in a:
        # nothing has to persist: every check builds what it needs. Only verify that the tools are there.
        r=sh(["g++","--version"]); print(r.stdout.splitlines()[0]); return r.returncode
    if "--replay" in a:
        f=a[a.index("--replay")+1]; d=json.load(open(f)); exes=build(d["property"])
        if not exes: return 2
        exe=[x[0] for x in scenarios(exes) if x[1]==d["scenario"]][0]
        return subprocess.call([exe,"--scenario",d["scenario"],"--replay",f]+(["--verbose"] if "--verbose" in a else []))
    prop=a[0]; thorough="--thorough" in a or os.environ.get("VERIF_TIER")=="thorough"
    only=a[a.index("--only")+1] if "--only" in a else None
    c=CHECKS[prop]; exes=build(prop)
    if not exes: print("ERROR: harness of %s does not build"%prop); return 2
    tb=time.time()-T0
    scen=scenarios(exes)
    tier="thorough" if thorough else "quick"
    scen=[(s[0],s[1],int(s[3 if thorough else 2])) for s in scen]
    scen=[s for s in scen if s[2]>=0 and (not only or s[1] in only.split(","))]
    budget=c.get("thorough_s",3000) if thorough else c.get("quick_s",420)
    known=[k for k in known_findings() if k["property"]==prop]
    evd=os.path.join(V,"evidence"); rdir=os.path.join(evd,"replays"); os.makedirs(rdir,exist_ok=True)
    res=[]; viol=[]; fatal=[]; seen=set()
    # scenarios share the remaining time; short ones leave theirs to the others
    for i,(exe,s,b) in enumerate(scen):
        left=budget-(time.time()-T0)
        cap=max(10.0,left/ (len(scen)-i) * (3 if len(scen)-i>2 else 1)) if left>0 else 10.0
        cap=min(cap,max(10.0,left)) if left>0 else 10.0
        out=os.path.join(BUILD,prop+"."+s+".json"); kf=os.path.join(BUILD,prop+".known")
        with open(kf,"w") as f:
            for k in known:
                if k["scenario"] in (s,"*"): f.write(k["match"]+"\n")
        if os.path.exists(out): os.remove(out)
        r=sh([exe,"--scenario",s,"--bound",str(b),"--jobs",str(JOBS),"--time","%.1f"%cap,"--known",kf,"--out",out]+(["--thorough"] if thorough else []))
        try: d=json.load(open(out))
        except Exception:
            fatal.append("%s: no result (exit %d) %s"%(s,r.returncode,r.stdout[-500:])); continue
        res.append(d)
        if d["fatal"]: fatal.append(s+": "+d["fatal"])
        for v in d["violations"]:
            if v["known"]:
                for n,k in enumerate(known):
                    if k["scenario"] in (s,"*") and k["match"] in v["signature"]: seen.add(n)
                continue
            if d["fatal"]: continue
            rp=os.path.join(rdir,"%s_%s_%s.json"%(prop,s,hashlib.md5(v["signature"].encode()).hexdigest()[:6]))
            json.dump({"property":prop,"scenario":s,"message":v["message"],"deviations":v["deviations"],"tier":tier},open(rp,"w"))
            viol.append((s,v,rp))
        print("%s %-34s bound %d/%d%s  executions %d  tree nodes %d  outcomes %d  %.1fs"%(prop,s,d["bound_completed"],d["bound"]," (time cap)" if d["timed_out"] else "",d["pass_executions"],d["tree_nodes"],d["distinct_outcomes"],d["wall_s"]),flush=True)
        if viol and not thorough: break
    if not res: fatal.append("nothing explored")
    samples=[]
    for d in res:
        for o in d["outcome_samples"][:2]: samples.append({"scenario":d["scenario"],"schedule_deviations":o["deviations"],"observed":o["outcome"]})
    ev={"property":prop,"tier":tier,"seed":int(os.environ.get("VERIF_SEED","1")),"level":"model_checking",
        "coverage":{"states":sum(d["tree_nodes"] for d in res),"transitions":sum(d["pass_visible_ops"] for d in res),
          "traces_validated_against_impl":sum(d["pass_executions"] for d in res),"samples":samples[:24],
          "exhaustive":bool(res) and all(d["bound_completed"]==d["bound"] for d in res),
          "meaning":"states = distinct nodes (schedule/choice prefixes) of the explored execution trees; transitions = visible operations executed; traces = complete executions of the real code, every one checked; 'bound' = maximal number of deviations from the default schedule, all executions up to 'bound_completed' were run",
          "scenarios":[{k:d[k] for k in ("scenario","bound","bound_completed","timed_out","pass_executions","tree_nodes","pass_visible_ops","max_points","max_threads","distinct_outcomes","shared_locations","late_shared","race_detector","races_suppressed","executions","wall_s")} for d in res],
          "build_s":round(tb,1)},
        "assumptions":ASSUME+c.get("assume",[]),"wall_s":round(time.time()-T0,2),"violations":len(viol)}
    json.dump(ev,open(os.path.join(evd,prop+".json"),"w"),indent=1)
    for n,k in enumerate(known):
        if n in seen: print("KNOWN-FINDING: property=%s scenario=%s %s"%(prop,k["scenario"],k["what"]))
    for s,v,rp in viol:
        print("%s: %s"%(s,v["message"])); print("VIOLATION property=%s replay=%s"%(prop,rp))
    if viol: return 1
    if fatal:
        print("ERROR: "+"; ".join(fatal)); return 2
    return 0
sys.exit(main())
