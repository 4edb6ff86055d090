"""Builds what the checks need from /repo's current working tree (never from
/repo/_build), cached under /verif/build by a hash of all inputs."""
import hashlib, os, shutil, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VERIF_REPO","/repo")
BUILD=os.path.join(VERIF,"build")
HARN=os.path.join(VERIF,"harness")
WRAP="SSL_set_fd socket bind listen accept accept4 connect recv send recvfrom sendto read write writev shutdown close epoll_create epoll_create1 epoll_ctl epoll_wait epoll_pwait sigprocmask fcntl ioctl setsockopt getsockopt fork kill waitpid wait".split()
SAN={"asan":["-fsanitize=address","-fno-omit-frame-pointer","-DVNET_ASAN"],"plain":[],"race":["-fsanitize=thread"]}
SAN["prefork"]=SAN["asan"]+["-DHAVE_PREFORK=1"]   # the build with worker processes
PWRAP="pthread_create pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast".split()
class BuildError(Exception): pass

def sources():
    out={}
    for grp,root in (("commons","src/viriatum_commons"),("server","src/viriatum"),
                     ("gif","modules/mod_gif/src/viriatum_mod_gif"),("diag","modules/mod_diag/src/viriatum_mod_diag"),
                     ("lua","modules/mod_lua/src/viriatum_mod_lua")):
        fs=[]
        for d,_,names in os.walk(os.path.join(REPO,root)):
            for n in names:
                if n.endswith(".c"): fs.append(os.path.join(d,n))
        out[grp]=sorted(fs)
    return out

def tree_hash(extra=()):
    h=hashlib.sha256()
    for root in ("src","modules"):
        for d,dn,names in os.walk(os.path.join(REPO,root)):
            dn.sort()
            for n in sorted(names):
                if n.endswith((".c",".h")) :
                    p=os.path.join(d,n); h.update(p.encode()); h.update(open(p,"rb").read())
    for p in extra: h.update(open(p,"rb").read())
    for p in sorted(glob.glob(HARN+"/*.[ch]")+glob.glob(HARN+"/config/*")): h.update(open(p,"rb").read())
    h.update(open(os.path.abspath(__file__),"rb").read())
    return h.hexdigest()[:16]

def run(cmd,cwd=None):
    p=subprocess.run(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
    if p.returncode: raise BuildError(" ".join(cmd)+"\n"+p.stdout[-6000:])
    return p.stdout

def incs(*groups):
    r=["-I"+HARN+"/config"]
    for g in groups: r.append("-I"+os.path.join(REPO,g))
    return r

def prune():
    """keeps the build directory small: the 6 most recently used trees"""
    try:
        ds=sorted((os.path.join(BUILD,d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD,d)) and d.startswith("t")),key=os.path.getmtime)
        for d in ds[:-6]: shutil.rmtree(d,ignore_errors=True)
    except OSError: pass

def build(san="asan",targets=("vnet","modules")):
    """returns the directory with the built targets"""
    os.makedirs(BUILD,exist_ok=True)
    out=os.path.join(BUILD,"t"+tree_hash()+"-"+san)
    os.makedirs(out,exist_ok=True); os.utime(out)
    lock=open(out+"/.lock","w"); fcntl.flock(lock,fcntl.LOCK_EX)
    try:
        prune()
        _build(out,san,targets)
    finally: fcntl.flock(lock,fcntl.LOCK_UN); lock.close()
    return out

CC=["gcc","-g","-O1","-U_FORTIFY_SOURCE","-D_FORTIFY_SOURCE=0","-DHAVE_CONFIG_H","-w"]
def _compile(jobs):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(run,j) for j in jobs]: f.result()

def _objs(out,san,grp,flags,srcs,tag=""):
    os.makedirs(out+"/obj",exist_ok=True); jobs=[]; objs=[]
    for s in srcs:
        o=out+"/obj/"+grp+tag+"_"+os.path.relpath(s,REPO).replace("/","_")[:-2]+".o"
        if s.startswith(HARN): o=out+"/obj/h_"+os.path.basename(s)[:-2]+tag+".o"
        objs.append(o)
        if not os.path.exists(o): jobs.append(CC+SAN[san]+flags+["-c",s,"-o",o+".tmp.o"])
    def one(j):
        run(j); os.rename(j[-1],j[-1][:-6])
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(one,j) for j in jobs]: f.result()
    return objs

def _build(out,san,targets):
    src=sources()
    ci=incs("src","src/viriatum_commons"); si=incs("src","src/viriatum")
    if "vnet" in targets and not os.path.exists(out+"/vnet"):
        o=_objs(out,san,"commons",ci,src["commons"])
        o+=_objs(out,san,"server",si+["-Dmain=viriatum_main"],src["server"])
        o+=_objs(out,san,"h",[],[HARN+"/vnet.c"])
        run(["gcc"]+SAN[san]+["-rdynamic","-o",out+"/vnet.tmp"]+o+["-Wl,"+",".join("--wrap="+w for w in WRAP),"-lpcre","-lssl","-lcrypto","-lpthread","-ldl","-lm"])
        os.rename(out+"/vnet.tmp",out+"/vnet")
    if "modules" in targets and not os.path.exists(out+"/modules/.done"):
        os.makedirs(out+"/modules",exist_ok=True)
        for m,lib in (("gif",[]),("diag",[]),("lua",["-llua5.1"])):
            mi=incs("src","modules/mod_%s/src"%m,"modules/mod_%s/src/viriatum_mod_%s"%(m,m))+["-I/usr/include/lua5.1"]
            o=_objs(out,san,m,mi+["-fPIC"],src[m])
            run(["gcc"]+SAN[san]+["-shared","-o",out+"/modules/libviriatum_mod_%s.so"%m]+o+lib)
        for n in ("pa","pb","pc"):   # probes that note when they are stopped
            o=_objs(out,san,"probe"+n,incs("src","modules/mod_gif/src","modules/mod_gif/src/viriatum_mod_gif")+["-fPIC","-DNAME="+n],[HARN+"/mod_probe.c"],tag="_"+n)
            run(["gcc"]+SAN[san]+["-shared","-o",out+"/modules/libviriatum_mod_%s.so"%n]+o)
        open(out+"/modules/.done","w").close()
    for t in targets:
        if t.startswith("unit:"):
            name=t[5:]; exe=out+"/"+name
            if os.path.exists(exe): continue
            o=_objs(out,san,"commons",ci,src["commons"])
            hs=HARN+"/"+name+".c"
            s=[]
            if "USE_SERVER" in open(hs).read(400):
                s=_objs(out,san,"server",si+["-Dmain=viriatum_main"],src["server"])
            if san=="race":   # the hooks of the sanitizer are the driver's
                ho=_objs(out,"plain","h",si+ci[1:],[hs])
                run(["gcc","-rdynamic","-o",exe+".tmp"]+ho+o+["-Wl,"+",".join("--wrap="+w for w in PWRAP),"-lpcre","-lssl","-lcrypto","-lpthread","-ldl","-lm"])
                os.rename(exe+".tmp",exe); continue
            ho=_objs(out,san,"h",si+ci[1:],[hs])
            run(["gcc"]+SAN[san]+["-rdynamic","-o",exe+".tmp"]+ho+s+o+["-lpcre","-lssl","-lcrypto","-lpthread","-ldl","-lm"])
            os.rename(exe+".tmp",exe)
if __name__=="__main__":
    import time; t=time.time()
    print(build(sys.argv[1] if len(sys.argv)>1 else "asan",tuple(sys.argv[2:]) or ("vnet","modules"))); print(round(time.time()-t,1),"s")
