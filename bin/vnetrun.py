"""Runs scripted scenarios against the real server on the simulated network
(harness/vnet) and returns what each scenario's log recorded."""
import os, shutil, subprocess, tempfile, stat
import vbuild
NPROC=min(8,os.cpu_count() or 4)

class Script:
    """builder for one scenario"""
    def __init__(self,id,**meta): self.id=id; self.b=[]; self.meta=meta
    def _l(self,s): self.b.append(s.encode()+b"\n"); return self
    def _r(self,head,data): self.b.append(head.encode()+b"\n"+bytes(data)+b"\n"); return self
    def connect(self,c=0,family=0): assert 0<=c<8192; return self._l("C %d %d"%(c,family))
    def data(self,data,c=0): return self._r("D %d %d"%(c,len(data)),data)
    def tls(self,c=0,chunk=0,ver=13,flip=-1,rude=0): return self._l("Y %d %d %d %d %d"%(c,chunk,ver,flip,rude))
    def rekey(self,c=0): return self._l("N %d"%c)
    def limit(self,n): return self._l("f %d"%n)
    def lost(self,c,why): return self._l("a %d %d"%(c,why))
    def hangup(self,c=0): return self._l("H %d"%c)
    def window(self,n,c=0): return self._l("W %d %d"%(c,n))
    def maxsend(self,n,c=0): return self._l("L %d %d"%(c,n))
    def maxrecv(self,n,c=0): return self._l("R %d %d"%(c,n))
    def fin(self,c=0): return self._l("F %d"%c)
    def rst(self,c=0): return self._l("X %d"%c)
    def pump(self): return self._l("P")
    def rounds(self,n): return self._l("S %d"%n)
    def gauge(self): return self._l("G")
    def mark(self,s): return self._l("E "+s)
    def kill(self,sig): return self._l("K %d"%sig)
    def kill_at(self,n,sig): return self._l("I %d %d"%(n,sig))
    def told(self): return self._l("Z")
    def theirs(self): return self._l("A")
    def turn(self,n): return self._l("V %d"%n)
    def done(self): return self._l("v")
    def brefuse(self,on): return self._l("BM %d"%on)
    def bdata(self,data,i=0): return self._r("BD %d %d"%(i,len(data)),data)
    def bfin(self,i=0): return self._l("BF %d"%i)
    def brst(self,i=0): return self._l("BX %d"%i)
    def bwindow(self,n,i=0): return self._l("BW %d %d"%(i,n))
    def bmaxsend(self,n,i=0): return self._l("BL %d %d"%(i,n))
    def write(self,path,data): return self._r("M %d %s"%(len(data),path),data)
    def mtime(self,path,t): return self._l("T %d %s"%(t,path))
    def unlink(self,path): return self._l("U "+path)
    def bytes(self):
        s=b"".join(self.b)+b"END\n"
        return b"SCEN %s %d\n"%(str(self.id).encode(),len(s))+s

class Result:
    """events: list of tuples in order; ('S',c,bytes) ('CL',c) ('AC',c) ('BC',i,host,port) ('BR',i,bytes) ('Q',) ('G',bytes,fds,vfds) ('E',text)..."""
    def __init__(self,id): self.id=id; self.ev=[]; self.exit=None; self.signal=None; self.stderr=b""; self.skip=False
    def sent(self,c=0): return b"".join(e[2] for e in self.ev if e[0]=="S" and e[1]==c)
    def backend(self,i=0): return b"".join(e[2] for e in self.ev if e[0]=="BR" and e[1]==i)
    def closed(self,c=0): return any(e[0]=="CL" and e[1]==c for e in self.ev)
    @property
    def ok(self): return self.exit==0 and not any(e[0] in ("SPIN","BLOCK","BADLINE","BADCLOSE","MFAIL","TFAIL") for e in self.ev)
    def why(self):
        if self.signal is not None: return "killed by signal %d"%self.signal
        for e in self.ev:
            if e[0] in ("SPIN","BLOCK","BADLINE","BADCLOSE","MFAIL","TFAIL"): return " ".join(map(str,e))
        if self.exit!=0:
            t=self.stderr.decode("latin1")
            import re
            m=re.search(r"ERROR: (AddressSanitizer: [^\n]*)",t) or re.search(r"([^\n]*Assertion[^\n]*)",t) or re.search(r"([^\n]*runtime error[^\n]*)",t)
            return "exit %s %s"%(self.exit,m.group(1) if m else t[-300:])
        return "ok"

def parse_log(data):
    res={}; order=[]; pos=0; cur=None; pre=[]
    n=len(data)
    while pos<n:
        e=data.find(b"\n",pos)
        if e<0: break
        line=data[pos:e]; pos=e+1
        if not line: continue
        w=line.split(b" ")
        t=w[0].decode("latin1")
        if t=="SCEN": cur=Result(w[1].decode()); res[cur.id]=cur; order.append(cur); continue
        if t in ("S","BR","STDERR"):
            k=int(w[2]); raw=data[pos:pos+k]; pos+=k+1
            if t=="STDERR": cur.stderr=raw
            else: cur.ev.append((t,int(w[1]),raw))
            continue
        if t=="EXIT": cur.exit=int(w[1]); continue
        if t=="SIGNAL": cur.signal=int(w[1]); cur.exit=-1; continue
        if t=="SKIPPED": cur.skip=True; cur.exit=-1; continue
        if t=="DONE": cur=None; continue
        tup=[t]+[int(x) if x.lstrip(b"-").isdigit() else x.decode("latin1") for x in w[1:]]
        (cur.ev if cur else pre).append(tuple(tup))
    return res,pre

class Site:
    """a scratch directory holding the configuration, modules and content the server runs on"""
    def __init__(self,build,ini,modules=True,templates=True):
        self.dir=tempfile.mkdtemp(prefix="vsite",dir="/tmp"); self.build=build
        os.chmod(self.dir,0o777)
        for d in ("etc","www","www/templates","modules","logs"): os.makedirs(self.dir+"/"+d,mode=0o777)
        for d in ("etc","www","www/templates","modules","logs"): os.chmod(self.dir+"/"+d,0o777)
        if ini is not None: open(self.dir+"/etc/viriatum.ini","w").write(ini)
        if modules:
            for f in os.listdir(build+"/modules"):
                if f.endswith(".so"): shutil.copy(build+"/modules/"+f,self.dir+"/modules/"+f)
        if templates:
            src=vbuild.REPO+"/src/viriatum/resources/html/base/templates"
            for f in os.listdir(src): shutil.copy(src+"/"+f,self.dir+"/www/templates/"+f)
    def put(self,path,data=b"",mtime=None,mode=None):
        p=self.dir+"/"+path; os.makedirs(os.path.dirname(p),exist_ok=True)
        with open(p,"wb") as f: f.write(data)
        os.chmod(p,mode if mode is not None else 0o666)
        if mtime is not None: os.utime(p,(mtime,mtime))
        return p
    def mkdir(self,path): os.makedirs(self.dir+"/"+path,exist_ok=True); os.chmod(self.dir+"/"+path,0o777)
    def run(self,scripts,args=("--port=8080","--no-log") ,nproc=NPROC,tmo=10,limit=800,hangs=0,reuse=False):
        """runs all scripts; returns {id: Result}. Raises on harness failure."""
        scripts=list(scripts)
        sf=self.dir+"/logs/scen"; open(sf,"wb").write(b"".join(s.bytes() for s in scripts)); os.chmod(sf,0o644)
        nproc=max(1,min(nproc,len(scripts)))
        env=dict(os.environ,ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:exitcode=66:abort_on_error=0:quarantine_size_mb=16:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=2048",TZ="UTC",LC_ALL="C")
        if reuse: env["ASAN_OPTIONS"]=env["ASAN_OPTIONS"].replace("quarantine_size_mb=16","quarantine_size_mb=0:thread_local_quarantine_size_kb=0")
        if hangs: env["VHANGS"]=str(hangs)
        exe=self.build+"/vnet"
        ps=[];logs=[]
        for k in range(nproc):
            lg=self.dir+"/logs/log%d"%k
            if os.path.exists(lg): os.unlink(lg)
            logs.append(lg)
            ps.append(subprocess.Popen([exe,sf,lg,str(k),str(nproc),str(tmo),"--"]+list(args),cwd=self.dir,env=env,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,start_new_session=True))
        out={}; self.pre=[]; self.startup=None
        for p,lg in zip(ps,logs):
            try: err=p.communicate(timeout=limit)[1]
            except subprocess.TimeoutExpired:
                os.killpg(p.pid,9); err=p.communicate()[1]
            data=open(lg,"rb").read() if os.path.exists(lg) else b""
            r,pre=parse_log(data); out.update(r); self.pre=pre or self.pre
            if p.returncode!=0: self.startup=(p.returncode,err[:4000].decode("latin1"))
        return out
    def close(self): shutil.rmtree(self.dir,ignore_errors=True)
