import os, sys, json
os.environ["VERIF_REPO"]=os.getcwd()
sys.path.insert(0,"/verif")
from engine.run import _setup
_setup()
from engine import harness
sys.path.insert(0,os.getcwd())
fs=json.load(open("fs.json"))
def run(H, case):
    f=H.fn("monte_carlo.shimt","t%03d"%case["k"])
    a=[H.real("a0",-3,4) if case["r"] else H.int("a0",-3,4), H.const(1), H.int("a2",-3,4)]
    b=[H.int("b0",-1,2), H.const(2), H.const(-1)]
    i=[H.int("i0",0,2), H.const(3), H.const(1)]
    m=[[H.int("m0",-2,3),H.const(1),H.const(0)],[H.const(2),H.const(-1),H.const(4)],[H.const(1),H.const(5),H.int("m8",0,3)]]
    r=f(H.arr(a,"f"),H.arr(b,"f"),H.arr(m,"f"),H.arr(i,"i"))
    def flat(r):
        if hasattr(r,"tolist"): r=r.tolist()
        if isinstance(r,(list,tuple)):
            out=[]
            for x in r: out+=flat(x)
            return out
        return [r]
    try: H.observe("v", flat(r))
    except Exception: H.observe("v", r)
sel=[int(x) for x in sys.argv[1:]] or range(len(fs))
bad=0
for k in sel:
    for r in (0,1):
        try:
            e=harness.explore(run, dict(k=k,r=r), dict(max_paths=400,time=60,validate=8,path_time=20))
        except BaseException as ex:
            print(k,r,fs[k][:90],"CRASH",type(ex).__name__,str(ex)[:150]); bad+=1; continue
        p=[]
        if e["errors"]: p.append("ERR "+str(e["errors"][0])[:160])
        if e["mismatches"]: p.append("MIS "+str(e["mismatches"][0])[:260])
        if e["violations"] or e["unreproduced"]: p.append("EXC "+str((e["violations"]+e["unreproduced"])[0])[:260])
        if not e["validated"] and not p: p.append("unvalidated")
        if p: bad+=1; print(k,r,repr(fs[k][:90])," | ".join(p)); break
print("bad",bad,"of",len(list(sel)))
