"""Shared by every check: running TLC (model checking, generation of behaviours,
validation of recorded traces), running the unit drivers, evidence, verdicts."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,VERIF+"/bin")
import vbuild, vnetrun
SPEC=VERIF+"/spec"
NPROC=min(8,os.cpu_count() or 4)
CP="/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class HarnessError(Exception): pass

class TLCError(HarnessError): pass

def _spec_dir():
    d=tempfile.mkdtemp(prefix="vtlc",dir="/tmp")
    for f in os.listdir(SPEC):
        if f.endswith((".tla",".cfg")): os.symlink(SPEC+"/"+f,d+"/"+f)
    return d

def errtext(out):
    """what TLC had to say, without the lines the specification printed"""
    l=[x for x in out.splitlines() if not x.startswith("<<")]
    k=[i for i,x in enumerate(l) if "Error" in x or "Exception" in x or "xception" in x][:3]
    return "\n".join("\n".join(l[i:i+6])[:1500] for i in k)+"\n...\n"+"\n".join(l[-8:])[:1500]

def tlc(module,cfg,workers=NPROC,extra=(),files=None,timeout=850,mem="4g",env=None):
    """runs TLC on module with cfg (a file of spec/ or the text of one); returns (returncode, output)"""
    d=_spec_dir()
    try:
        if "\n" in cfg:
            open(d+"/_gen.cfg","w").write(cfg); cfg="_gen.cfg"
        for n,c in (files or {}).items():
            if callable(c): c(d+"/"+n)
            else: open(d+"/"+n,"w").write(c)
        cmd=["java","-Djava.io.tmpdir="+d,"-XX:+UseParallelGC","-Xmx"+mem,"-Xss64m","-cp",CP,"tlc2.TLC","-workers",str(workers),"-config",cfg,"-metadir",d+"/meta","-noGenerateSpecTE"]+list(extra)+[module+".tla"]
        with open(d+"/out","wb") as fo:
            try: rc=subprocess.run(cmd,cwd=d,stdout=fo,stderr=subprocess.STDOUT,timeout=timeout,env=dict(os.environ,**(env or {}))).returncode
            except subprocess.TimeoutExpired: rc=-1
        return rc,open(d+"/out",encoding="utf-8",errors="replace").read()
    finally: shutil.rmtree(d,ignore_errors=True)

def _stats(out):
    m=re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found",out)
    if not m: return 0,0
    return int(m[-1][1].replace(",","")),int(m[-1][0].replace(",",""))

class Check:
    def __init__(self,prop,level="model_checking"):
        self.prop=prop; self.level=level; self.t0=time.time()
        self.tier=os.environ.get("VERIF_TIER","quick")
        if self.tier not in ("quick","thorough"): self.tier="quick"
        self.seed=int(os.environ.get("VERIF_SEED","1") or 1)
        self.thorough=self.tier=="thorough"
        self.rnd=random.Random(self.seed*1000003+sum(map(ord,prop)))
        self.states=0; self.transitions=0; self.validated=0; self.cover={}; self.samples=[]; self.assume=[]
        self.viol=[]; self.findings=[]
        self.sites=[]
    # ---- model checking
    def mc(self,module,cfg,**kw):
        """exhaustive check of the specification itself; an error of the model is an error of the check"""
        rc,out=tlc(module,cfg,**kw)
        if rc!=0 or "Error:" in out: raise TLCError("model %s %s: rc %s\n%s"%(module,cfg[:60],rc,errtext(out)))
        s,t=_stats(out); self.states+=s; self.transitions+=t
        self.note("model_runs",{"%s/%s"%(module,cfg if "\n" not in cfg else "inline"):{"distinct":s,"generated":t}})
        return out
    def gen(self,module,cfg,simulate=None,depth=None,tag="GEN",**kw):
        """behaviours of the specification: everything printed as <<tag, json>>"""
        extra=list(kw.pop("extra",()))
        if simulate: extra+=["-simulate","num=%d"%simulate,"-depth",str(depth or 100),"-seed",str(self.seed*7919+13)]
        kw.setdefault("workers",1)
        rc,out=tlc(module,cfg,extra=extra,**kw)
        if rc!=0 or "Error:" in out: raise TLCError("generation %s %s: rc %s\n%s"%(module,cfg[:60],rc,errtext(out)))
        s,t=_stats(out); self.states+=s; self.transitions+=t
        res=[]; seen=set(); pre='<<"%s", "'%tag
        for l in out.splitlines():
            if l.startswith(pre):
                j=l[len(pre):-3]
                j=j.replace('\\"','"').replace("\\\\","\\")
                if j in seen: continue
                seen.add(j); res.append(json.loads(j))
        self.note("behaviours_generated",{"%s/%s"%(module,cfg if "\n" not in cfg else "inline"):len(res)})
        return res
    def validate(self,module,traces,consts="",chunk=4000,par=None,**kw):
        """traces: list of {"id","ev":[...]}; returns the list of (trace, position) that
        the specification rejects, position = number of events it explains"""
        if not traces: return []
        rej=self._validate(module,consts,"Acc",traces,chunk,par,kw)
        # a rejection counts only if a second run repeats it; this one locates the event
        return self._validate(module,consts,"Pos",[t for t,_ in rej],chunk,par,kw,count=False) if rej else []
    def _validate(self,module,consts,mode,traces,chunk,par,kw,count=True):
        from concurrent.futures import ThreadPoolExecutor
        size=sum(len(t["ev"]) for t in traces)
        n=min(NPROC,max(1,size//3000)); chunk=max(1,min(chunk,(len(traces)+n-1)//n))
        parts=[traces[i:i+chunk] for i in range(0,len(traces),chunk)]
        cfg="SPECIFICATION TSpec\nCONSTRAINT %s\nCHECK_DEADLOCK FALSE\n%s\n"%(mode,consts)
        def one(part):
            def wr(p):
                with open(p,"w") as f:
                    for t in part: f.write(json.dumps(t,separators=(",",":"))+"\n")
            k2=dict(kw); fl=dict(k2.pop("files",None) or {}); fl["trace.ndjson"]=wr
            rc,out=tlc(module,cfg,workers=1,files=fl,**k2)
            if rc!=0 or "Error:" in out: raise TLCError("validation %s: rc %s\n%s"%(module,rc,errtext(out)))
            far=[0]*len(part); acc=[False]*len(part)
            for m in re.finditer(r'<<"(ACC|POS)", (\d+)(?:, (\d+))?>>',out):
                i=int(m.group(2))-1
                if m.group(1)=="ACC": acc[i]=True
                else: far[i]=max(far[i],int(m.group(3)))
            s,t=_stats(out)
            return s,t,[(part[i],far[i]) for i in range(len(part)) if not acc[i]],sum(acc)
        rej=[]; n=0
        with ThreadPoolExecutor(max_workers=par or NPROC) as ex:
            for s,t,r,a in ex.map(one,parts):
                rej+=r; n+=a
                if count: self.states+=s; self.transitions+=t
        if count: self.validated+=n
        return rej
    # ---- running the code
    def build(self,*targets,san="asan"):
        try: return vbuild.build(san,targets)
        except vbuild.BuildError as e: raise HarnessError("build: "+str(e))
    def unit(self,name,scenarios,tmo=20,san="asan",env=None,hangs=0,procs=None):
        """scenarios: list of (id, tokens); returns {id: {"ev":..} or {"crash":..}}"""
        b=self.build("unit:"+name,san=san)
        d=tempfile.mkdtemp(prefix="vunit",dir="/tmp")
        try:
            with open(d+"/in","w") as f:
                for i,t in scenarios: f.write("%s %s\n"%(i," ".join(map(str,t))))
            e=dict(os.environ,ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:exitcode=66:abort_on_error=0:quarantine_size_mb=8:allocator_may_return_null=1:max_allocation_size_mb=1024",TZ="UTC",LC_ALL="C",**(env or {}))
            if hangs: e["VHANGS"]=str(hangs)
            n=procs or max(1,min(NPROC,len(scenarios)//50+1))
            ps=[subprocess.Popen([b+"/"+name,d+"/in",d+"/out%d"%k,str(k),str(n),str(tmo),d],cwd=d,env=e,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE) for k in range(n)]
            res={}
            for k,p in enumerate(ps):
                try: err=p.communicate(timeout=850)[1]
                except subprocess.TimeoutExpired: p.kill(); raise HarnessError("driver %s timed out"%name)
                if p.returncode!=0: raise HarnessError("driver %s: exit %s %s"%(name,p.returncode,err[-500:]))
                for l in open(d+"/out%d"%k,encoding="latin1"):
                    r=json.loads(l); res[r["id"]]=r
            miss=[i for i,_ in scenarios if str(i) not in res]
            if miss: raise HarnessError("driver %s: no answer for %s"%(name,miss[:3]))
            return res
        finally: shutil.rmtree(d,ignore_errors=True)
    def unit_validate(self,name,scenarios,module,consts="",kind="conformance",post=None,**kw):
        """runs the scenarios through the driver and validates what it recorded against
        the specification; a crash or a hang is not a behaviour of the specification"""
        ukw={k:kw.pop(k) for k in ("tmo","san","env") if k in kw}
        # a driver that hangs again and again is not run to the end, unless the hangs do not recur
        res=self.unit(name,scenarios,hangs=2,**ukw)
        tok={str(i):t for i,t in scenarios}
        traces=[]; crashed=[r for r in res.values() if "crash" in r]
        if crashed:
            hung=[r for r in crashed if r["crash"].startswith("hang")]
            sel=[r for r in crashed if not r["crash"].startswith("hang")]+hung[:8]
            again=self.unit(name,[(r["id"],tok[r["id"]]) for r in sel],procs=min(NPROC,len(sel)),**ukw)
            for r in sel:
                if "crash" in again[r["id"]]: self.violation(kind,r["crash"],{"driver":name,"scenario":tok[r["id"]]})
            if not any("crash" in x for x in again.values()):
                left=[(r["id"],tok[r["id"]]) for r in res.values() if "skip" in r]
                if left: res.update(self.unit(name,left,**ukw))
        for i,_ in scenarios:
            r=res[str(i)]
            if "ev" in r: traces.append(post(r) if post else {"id":r["id"],"ev":r["ev"]})
        rej=self.validate(module,traces,consts,**kw)
        if rej:
            again=self.unit(name,[(t["id"],tok[t["id"]]) for t,_ in rej],**ukw)
            for t,p in rej:
                r=again[t["id"]]
                t2=None if "crash" in r else (post(r) if post else {"id":r["id"],"ev":r["ev"]})
                if t2 is not None and t2["ev"]!=t["ev"] and not self.validate(module,[t2],consts,**kw): continue
                bad=t["ev"][p] if p<len(t["ev"]) else "(end)"
                self.violation(kind,"event %d of trace %s is not allowed by %s: %s"%(p+1,t["id"],module,json.dumps(bad)[:300]),{"driver":name,"scenario":tok[t["id"]],"trace":t,"explained":p})
        self.note("traces",{name+"/"+module:len(traces)})
        if traces: self.sample({"driver":name,"scenario":" ".join(map(str,tok[traces[len(traces)//2]["id"]]))[:300],"trace":json.dumps(traces[len(traces)//2]["ev"])[:500]})
        return traces
    # ---- reporting
    def note(self,key,val):
        if isinstance(val,dict):
            d=self.cover.setdefault(key,{})
            for k,v in val.items():
                if isinstance(v,int) and isinstance(d.get(k),int): d[k]+=v
                else: d[k]=v
        elif isinstance(val,int) and isinstance(self.cover.get(key),int): self.cover[key]+=val
        else: self.cover[key]=val
    def sample(self,s):
        if len(self.samples)<6: self.samples.append(s)
    def violation(self,kind,what,data,key=None):
        """key: identifies a known finding (exact text in known_findings.txt)"""
        if key is not None and key in known(self.prop):
            if key not in self.findings:
                self.findings.append(key); print("KNOWN-FINDING: property=%s %s"%(self.prop,key),flush=True)
            return
        self.viol.append((kind,what,data))
    def finish(self):
        rc=0
        if self.viol:
            d=VERIF+"/evidence/replay"; os.makedirs(d,exist_ok=True)
            for n,(kind,what,data) in enumerate(self.viol[:5]):
                p="%s/%s-%d.json"%(d,self.prop,n)
                with open(p,"w") as f: json.dump({"property":self.prop,"kind":kind,"what":what,"data":data},f,indent=1,default=repr)
                print("VIOLATION property=%s replay=%s"%(self.prop,p)); print("  "+what[:600])
            if len(self.viol)>5: print("  and %d more"%(len(self.viol)-5))
            rc=1
        cov={"states":self.states,"transitions":self.transitions,"traces_validated_against_impl":self.validated,"samples":self.samples or ["-"]}
        cov.update(self.cover)
        ev={"property":self.prop,"tier":self.tier,"seed":self.seed,"level":self.level,"coverage":cov,"assumptions":self.assume,"wall_s":round(time.time()-self.t0,2),"violations":len(self.viol)}
        os.makedirs(VERIF+"/evidence",exist_ok=True)
        with open(VERIF+"/evidence/%s.json"%self.prop,"w") as f: json.dump(ev,f,indent=1,default=repr)
        print("%s %s: states=%d transitions=%d traces=%d violations=%d known=%d %.1fs"%(self.prop,self.tier,self.states,self.transitions,self.validated,len(self.viol),len(self.findings),time.time()-self.t0))
        return rc

_known=None
def known(prop):
    """keys of the recorded findings of a property: lines 'finding: property=<id> <key>'"""
    global _known
    if _known is None:
        _known={}
        try:
            for l in open(VERIF+"/known_findings.txt"):
                m=re.match(r"finding: property=(\S+) (.*)$",l.strip())
                if m: _known.setdefault(m.group(1),set()).add(m.group(2).strip())
        except OSError: pass
    return _known.get(prop,set())
def hexs(b): return "x"+bytes(b).hex()
