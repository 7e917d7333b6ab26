import os, sys, json
os.environ["VERIF_REPO"]=os.getcwd()
sys.path.insert(0,"/verif")
from engine.run import _setup
_setup()
from engine import harness
sys.path.insert(0,os.getcwd())
fs=json.load(open("fs.json"))
def run(H, case):
    f=H.fn("monte_carlo.shimt","t%03d"%case["k"])
    x,y=H.int("a0",-3,4),H.int("i0",0,2)
    H.put_file("output.txt","") 
    f(H.arr([x,1],"f"),H.arr([y],"i"))
    v=H.values(H.file("output.txt"))
    if len(v)!=2: return H.fail("count %d"%len(v))
    H.check_eq("a",v[0],x); H.check_eq("i",v[1],y)
sel=[int(x) for x in sys.argv[1:]] or range(len(fs))
bad=0
for k in sel:
    for r in (0,1):
        try:
            e=harness.explore(run, dict(k=k,r=r), dict(max_paths=400,time=60,validate=8,path_time=20))
        except BaseException as ex:
            print(k,r,fs[k][:90],"CRASH",type(ex).__name__,str(ex)[:150]); bad+=1; continue
        p=[]
        if e["errors"]: p.append("ERR "+str(e["errors"][0])[:160])
        if e["mismatches"]: p.append("MIS "+str(e["mismatches"][0])[:260])
        if e["violations"] or e["unreproduced"]: p.append("EXC "+str((e["violations"]+e["unreproduced"])[0])[:260])
        if not e["validated"] and not p: p.append("unvalidated")
        if p: bad+=1; print(k,r,repr(fs[k][:90])," | ".join(p)); break
print("bad",bad,"of",len(list(sel)))
