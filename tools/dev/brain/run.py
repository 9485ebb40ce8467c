import sys,os,subprocess,runpy,time
from concurrent.futures import ThreadPoolExecutor
spec=sys.argv[1]; J=int(sys.argv[2]); only=set(sys.argv[3:])
Bs=runpy.run_path(spec)["B"]
log=open("/tmp/brain/log-"+os.path.basename(spec)[:-3],"a")
done=set(l.split()[0] for l in open(log.name) if len(l.split())>2)
def one(b):
    bid,prop,*ed=b
    if bid in done: return
    if only and bid not in only: return
    D="/tmp/brain/w/"+bid; subprocess.run(["rm","-rf",D]); os.makedirs(D)
    subprocess.run("cp -a /repo %s/repo; mkdir %s/v; cp -a %s/{checks,lib,harness,shim,tools,MANIFEST.json,properties.jsonl,known_findings.txt} %s/v/"%(D,D,os.environ.get("SNAP","/verif"),D),shell=True,executable="/bin/bash")
    eds=[ed[i:i+3] for i in range(0,len(ed),3)]
    for f,o,n in eds:
        p=D+"/repo/stl-to-ps/"+f; s=open(p).read()
        if s.count(o)<1 or o==n: log.write("%s NOEDIT %d\n"%(bid,s.count(o))); log.flush(); return
        open(p,"w").write(s.replace(o,n,1) if s.count(o)==1 or True else s)
    t=time.time()
    for c in prop.split():
        env=dict(os.environ,STL2PS_REPO=D+"/repo",VERIF_SEED="1",VERIF_TIER="quick",PATH="/tmp/brain/bin:"+os.environ["PATH"],CCACHE_DIR="/tmp/brain/cc",CCACHE_BASEDIR="/tmp/brain/w",CCACHE_NOHASHDIR="1",CCACHE_NODIRECT="1",CCACHE_MAXSIZE="3G",CCACHE_SLOPPINESS="time_macros")
        r=subprocess.run(["timeout","900","python3","checks/run.py",c,"--tier","quick"],cwd=D+"/v",env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        o=r.stdout.decode("latin-1")
        open("/tmp/brain/out-%s-%s"%(bid,c),"w").write(o)
        w="caught" if r.returncode==1 and "VIOLATION property" in o else "NOBUILD" if "error:" in o and r.returncode else "MISSED" if r.returncode==0 else "RC%d"%r.returncode
        lines=[x for x in o.split("\n") if x]
        log.write("%s %s %s %ds %s\n"%(bid,c,w,time.time()-t,lines[-2][:140] if len(lines)>1 else "")); log.flush()
    subprocess.run(["rm","-rf",D])
with ThreadPoolExecutor(J) as ex: list(ex.map(one,Bs))
log.write("DONE\n"); log.flush()
