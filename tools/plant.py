#!/usr/bin/env python3
"""plants a bug in a scratch copy of /repo: plant.py SPEC.py, where SPEC defines
ID, PROP, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO (python using demolib) and
optionally FILES={name: text}. Confirms the demonstration both ways, stores the
bug under seeded/ID and (with --check) runs the property's check on the copy."""
import json, os, shutil, subprocess, sys, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",**k)
def main(spec,check):
    g={}; exec(open(spec).read(),g); ID=g["ID"]; d=V+"/seeded/"+ID
    w=tempfile.mkdtemp(prefix="plant",dir="/tmp"); t=w+"/repo"
    try:
        sh(["git","clone","-q","/repo",t]); os.makedirs(t+"/_build/src"); shutil.copy("/repo/_build/src/config.h",t+"/_build/src/")
        for f,old,new in g["EDITS"]:
            p=t+"/"+f; s=open(p,newline="").read(); crlf="\r\n" in s; s=s.replace("\r\n","\n")
            assert s.count(old)==1,(f,s.count(old),old)
            s=s.replace(old,new); s=s.replace("\n","\r\n") if crlf else s
            open(p,"w",newline="").write(s)
        diff=subprocess.run(["git","-C",t,"diff","--binary"],stdout=subprocess.PIPE).stdout
        # the removed lines have to be the original project's
        for f,old,new in g["EDITS"]:
            base=sh(["git","-C","/repo","show","5f06cb8:"+f]).stdout.replace("\r","").split("\n")
            nl=new.split("\n")
            for l in old.split("\n"):
                if l not in nl and l.strip() and l not in base: print("   NOT ORIGINAL:",l)
        os.makedirs(d,exist_ok=True)
        for n in os.listdir(d): os.unlink(d+"/"+n)
        open(d+"/patch.diff","wb").write(diff)
        shutil.copy(V+"/tools/demolib.py",d)
        open(d+"/demo.py","w").write("from demolib import *\n"+g["DEMO"])
        open(d+"/demo.sh","w").write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec timeout 200 python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d+"/demo.sh",0o755)
        for n,x in g.get("FILES",{}).items(): open(d+"/"+n,"w").write(x)
        json.dump({"property":g["PROP"],"needs":g["NEEDS"],"what_it_breaks":g["BREAKS"]},open(d+"/meta.json","w"),indent=1)
        r1=sh(["sh",d+"/demo.sh"],cwd=t); r0=sh(["sh",d+"/demo.sh"],cwd="/repo")
        print(ID,"demo patched:",r1.returncode,"clean:",r0.returncode,"|",r1.stdout[-200:].replace("\n"," "),"|",r0.stdout[-200:].replace("\n"," "))
        if check:
            for pr in g.get("CHECKS",[g["PROP"]]):
                r=sh([V+"/bin/check",pr,"quick"],cwd=V,env=dict(os.environ,VERIF_REPO=t,VERIF_SEED="1"))
                print("  check",pr,"exit",r.returncode,r.stdout[-700:].strip()[:900])
    finally: shutil.rmtree(w,ignore_errors=True)
for a in sys.argv[1:]:
    if a!="--check": main(a,"--check" in sys.argv)
