"""several processes: one scenario with a section for each, judged process by
process by spec/Server.tla and together by spec/Workers.tla"""
import json
from srv import *
import srv, vlib
class Section(Scn):
    def __init__(self,w,id,k): super().__init__(w,id); self.k=k; self.armed=k>0
    def kill(self,sig=15):
        if not self.armed: return super().kill(sig)
        self._a(); self.s.kill(sig); return self
class Multi:
    def __init__(self,w,id,n):
        self.w=w; self.id=id; self.n=n; self.p=[Section(w,id if k==0 else "%s/%d"%(id,k),k) for k in range(n+1)]; self.turn=0
    def step(self,k,f,asks=False):
        """the next step of the history is process k's: f(section)"""
        s=self.p[k].turn(self.turn); self.turn+=1
        if asks: s.done(); f(s)
        else: f(s); s.done()
        return self
    def bytes(self):
        b=b""
        for k,s in enumerate(self.p): d=b"".join(s.s.b)+b"END\n"; b+=b"PROC %d %d\n"%(k,len(d))+d
        return b"SCEN %s %d\n"%(self.id.encode(),len(b))+b
def life(m,res):
    """what happened to the processes, in order"""
    w=sorted(t for k in range(m.n+1) if (r:=res.get(m.p[k].id)) for t in r.ev if t[0]=="W")
    out=[]
    for _,seq,p,what,k,x in w:
        e={"o":what,"p":p,"k":k,"x":x}
        if what=="end": e["who"]=k
        out.append(e)
    return out
def early(m,res):
    """the workers made after the main process was asked to terminate"""
    ev=life(m,res); a=[i for i,e in enumerate(ev) if e["o"]=="ask" and e["p"]==0]
    return {e["k"] for i,e in enumerate(ev) if e["o"]=="fork" and a and i>a[0]}
def run(w,ms,tmo=10): 
    res=w.site.run(ms,args=w.args,tmo=tmo,hangs=2)
    if w.site.startup: raise vlib.HarnessError("server did not start: %r"%(w.site.startup,))
    miss=[m.id for m in ms if m.id not in res or res[m.id].exit is None]
    if miss: raise vlib.HarnessError("no result for scenarios %s"%miss[:3])
    return res
def bad(m,res):
    for s in m.p:
        r=res.get(s.id)
        if r is None:
            if s.k==0: return "no result"
            continue                      # a worker that was not made: the life of the processes will tell
        if r.skip: return None
        if not r.ok: return "process %d: %s"%(s.k,r.why())
        if any(t[0] in ("BADFORK","BADKILL") for t in r.ev): return "process %d: %s"%(s.k,[t for t in r.ev if t[0] in ("BADFORK","BADKILL")][0])
    return None
def conform(c,w,ms,asked,most=64):
    """runs the scenarios and validates each process and all of them together"""
    res=run(w,ms); out=[]
    for m in ms:
        why=bad(m,res)
        if why is None: out.append(m); continue
        r2=run(w,[m]); why=bad(m,r2)
        if why is None: res.update(r2); out.append(m)
        else: c.violation("crash","scenario %s (%d workers): %s"%(m.id,m.n,why),{"scenario":m.bytes().decode("latin1")[:4000],"life":brief_tr(life(m,r2))[:80],"ini":w.ini})
    c.note("scenarios_run",{"workers":len(out)})
    def judge(ms,res):
        tr=[]; by={}
        for m in ms:
            e=early(m,res)
            for s in m.p:
                if s.id in res: tr.append({"id":s.id,"site":1,"ev":([{"o":"term"}] if s.k in e else [])+srv.events(w,s,res[s.id])}); by[s.id]=m
        lv=[{"id":m.id,"ev":life(m,res)} for m in ms]
        r1=c.validate("ServerTrace",tr,srv.CONSTS,files={"site.ndjson":json.dumps(w.record())+"\n"})
        r2=c.validate("WorkersTrace",lv,"CONSTANTS Asked = %d\nMost = %d\n"%(asked,most))
        return [(by[t["id"]],t,p,"Server.tla") for t,p in r1]+[({m.id:m for m in ms}[t["id"]],t,p,"Workers.tla") for t,p in r2]
    again={m.id:m for m,_,_,_ in judge(out,res)}
    if again:
        res2=run(w,list(again.values()))
        for m,t,p,mod in judge([m for m in again.values() if bad(m,res2) is None],res2):
            b=t["ev"][p] if p<len(t["ev"]) else "(end)"
            c.violation("trace","scenario %s, %s: event %d is not allowed by %s: %s"%(m.id,t["id"],p+1,mod,brief(b)),{"scenario":m.bytes().decode("latin1")[:4000],"trace":brief_tr(t["ev"][:p+1]),"ini":w.ini})
    if out:
        m=out[len(out)//2]; c.sample({"scenario":m.id,"life":json.dumps(brief_tr(life(m,res)))[:700]})
    return res
