"""mkseed.py SPEC.py: spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO"""
import sys, os, shutil, subprocess, json, runpy
os.environ["GIT_OPTIONAL_LOCKS"]="0"
sp = runpy.run_path(sys.argv[1])
ID = sp["ID"]
V = "/verif/seeded/" + ID
R = "/tmp/seed/" + ID
subprocess.run(["rm","-rf",R]); os.makedirs("/tmp/seed",exist_ok=True)
subprocess.run(["git","clone","-q","/repo",R],check=True)
for f, old, new in sp["EDITS"]:
    p = R + "/stl-to-ps/" + f
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p,"w").write(s.replace(old,new))
os.makedirs(V,exist_ok=True)
d = subprocess.run(["git","-C",R,"diff"],capture_output=True,text=True).stdout
open(V+"/patch.diff","w").write(d)
K="/verif/tools/demo_kit"
for n in ("build.sh","demo.sh","kit.py"): shutil.copy(K+"/"+n,V+"/"+n)
subprocess.run(["cp","-r","/verif/shim",V+"/"]) if not os.path.exists(V+"/shim") else None
open(V+"/demo.py","w").write("from kit import *\n"+sp["DEMO"].lstrip("\n"))
if "FLAGS" in sp: open(V+"/flags","w").write(sp["FLAGS"])
for k,v in sp.get("EXTRA",{}).items(): open(V+"/"+k,"w").write(v)
json.dump({"property":sp["PROPERTY"],"needs":sp["NEEDS"],"what_it_breaks":sp["BREAKS"]},open(V+"/meta.json","w"),indent=1)
# changed lines must be original lines
base = subprocess.run(["git","-C","/repo","rev-list","--max-parents=0","HEAD"],capture_output=True,text=True).stdout.strip()
for f in sorted({e[0] for e in sp["EDITS"]}):
    orig = subprocess.run(["git","-C","/repo","show",base+":stl-to-ps/"+f],capture_output=True,text=True).stdout.split("\n")
    for l in d.split("\n"):
        if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig: print("  NOT ORIGINAL:", l)
a = subprocess.run(["bash",V+"/demo.sh"],cwd="/repo",capture_output=True,text=True)
b = subprocess.run(["bash",V+"/demo.sh"],cwd=R,capture_output=True,text=True)
print(ID,"clean rc",a.returncode,"| patched rc",b.returncode, "| ", b.stdout.strip()[-200:])
if a.returncode: print(a.stdout[-1500:],a.stderr[-1500:])
if b.returncode not in (1,): print(b.stdout[-1500:],b.stderr[-1500:])
if "--ut" in sys.argv or True:
    u = subprocess.run(["bash","/tmp/utp.sh",R],capture_output=True,text=True)
    print("  upstream:",u.stdout.strip()[-200:],u.stderr[-300:])
subprocess.run(["rm","-rf",R])
