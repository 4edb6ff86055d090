"""Scenarios for the reverse proxy: scripts clients and backends on the simulated
network, takes the byte streams of both sides apart into messages and lets TLC
judge the events against spec/Proxy.tla. Nothing here decides what a message
should be."""
import json, re
import vlib, srv
from srv import World, B
from vnetrun import Script

# ------------------------------------------------------------ message syntax
class Stream:
    """an incremental reader of HTTP messages: msgs (whole ones), part() (the begun one), junk"""
    def __init__(self,kind,nobody=None): self.kind=kind; self.b=bytearray(); self.msgs=[]; self.junk=False; self.nobody=nobody or (lambda m:False); self.m=None
    def feed(self,d):
        self.b+=d; out=[]
        while (self.b or self.m) and not self.junk:
            if not self.step(): break
            m=self.m; self.m=None; m["body"]=bytes(m["body"]); out.append(m); self.msgs.append(m)
        return out
    def idle(self): return not self.b and self.m is None
    def part(self):
        """what there is of a message that is not whole"""
        if self.m is None: return {"head":False}
        return dict(self.m,body=bytes(self.m["body"]))
    def step(self):
        b=self.b
        if self.m is None:
            e=b.find(b"\r\n\r\n")
            if e<0: return False
            m=self.headof(bytes(b[:e]))
            if m is None: self.junk=True; return False
            del b[:e+4]; self.m=m; m["body"]=bytearray(); m["eof"]=False
            g=lambda n:[v for k,v in m["h"] if k.lower()==n]
            te=g("transfer-encoding"); cl=g("content-length")
            m["ka"]=any(v.lower()=="keep-alive" for v in g("connection"))
            self.need=0; self.how="len"; self.cstate=None
            if self.kind=="rsp" and (m["st"]//100==1 or m["st"] in (204,304) or self.nobody(m)): pass
            elif te and te[-1].lower()=="chunked": self.how="chunks"; self.cstate="size"
            elif cl:
                if not re.match(r"\d+$",cl[0]): self.junk=True; return False
                self.need=int(cl[0])
            elif self.kind=="rsp": self.how="eof"; m["eof"]=True
        m=self.m
        if self.how=="eof": m["body"]+=b; b.clear(); return False
        if self.how=="len":
            k=min(len(b),self.need); m["body"]+=b[:k]; del b[:k]; self.need-=k
            return self.need==0
        while True:        # chunks
            if self.cstate=="data":
                k=min(len(b),self.need); m["body"]+=b[:k]; del b[:k]; self.need-=k
                if self.need: return False
                self.cstate="end"
            e=b.find(b"\r\n")
            if e<0: return False
            line=bytes(b[:e]); del b[:e+2]
            if self.cstate=="end":
                if line: self.junk=True; return False
                self.cstate="size"
            elif self.cstate=="size":
                x=re.match(rb"([0-9a-fA-F]+)[ \t]*(;.*)?$",line)
                if not x: self.junk=True; return False
                self.need=int(x.group(1),16); self.cstate="data" if self.need else "trailer"
            elif not line: return True
    def headof(self,b):
        lines=b.decode("latin1").split("\r\n"); m={"h":[],"head":True}
        if self.kind=="req":
            x=re.match(r"(\S+) (\S+) HTTP/(\d\.\d)$",lines[0])
            if not x: return None
            m["m"],m["u"],m["v"]=x.groups()
        else:
            x=re.match(r"HTTP/(\d\.\d) (\d{3})(?: (.*))?$",lines[0])
            if not x: return None
            m["v"]=x.group(1); m["st"]=int(x.group(2)); m["rs"]=x.group(3) or ""
        for l in lines[1:]:
            if l[:1] in " \t" and m["h"]: m["h"][-1][1]+=" "+l.strip(" \t"); continue
            x=re.match(r"([^:\s]+):[ \t]*(.*)$",l)
            if not x: return None
            m["h"].append([x.group(1),x.group(2)])
        return m
    def end(self):
        """the stream has ended: a message delimited by that is whole now"""
        m=self.m
        if m and m["eof"]: m["body"]=bytes(m["body"]); self.m=None; self.msgs.append(m); return m
        return None

def head(h): return b"".join(("%s: %s\r\n"%(k,v)).encode("latin1") for k,v in h)
def chunked(body,sizes=(3,),ext=False,trailers=()):
    o=b""; i=0; n=0
    while i<len(body):
        k=min(len(body)-i,sizes[n%len(sizes)]); o+=b"%x"%k+(b";a=b" if ext and n%2 else b"")+b"\r\n"+body[i:i+k]+b"\r\n"; i+=k; n+=1
    return o+b"0\r\n"+head(trailers)+b"\r\n"
def frame(line,h,body,framing,**kw):
    """framing: None, 'len', 'chunked' or 'eof'"""
    h=list(h)
    if framing=="len": h.append(("Content-Length",str(len(body))))
    if framing=="chunked": h.append(("Transfer-Encoding","chunked")); body=chunked(body,**kw)
    return line.encode("latin1")+b"\r\n"+head(h)+b"\r\n"+body
def request(u,method="GET",v="1.1",h=(),body=b"",framing=None,ka=True,**kw):
    h=list(h)+([("Connection","keep-alive")] if ka else [])
    return frame("%s %s HTTP/%s"%(method,u,v),h,body,framing,**kw)
def response(st=200,v="1.1",h=(),body=b"",framing="len",ka=True,reason="Whatever",**kw):
    h=list(h)+([("Connection","keep-alive")] if ka else [])
    return frame("HTTP/%s %d%s"%(v,st," "+reason if reason is not None else ""),h,body,framing,**kw)

# ---------------------------------------------------------------- scenarios
class PScn:
    def __init__(self,id): self.id=id; self.s=Script(id); self.acts=[]; self.bacts=[]; self.plan={}; self.left={}; self.req={}
    def _a(self,*e): self.s.mark("a%d"%len(self.acts)); self.acts.append(list(e))
    def conn(self,c=0): self._a({"o":"conn","c":c}); self.s.connect(c); self.req[c]=[]; return self
    def send(self,data,c=0,cuts=()):
        """a request, in pieces cut at the given places; pump() between them is up to the caller via parts"""
        st=Stream("req"); m=st.feed(data)
        assert len(m)==1 and st.idle() and not st.junk,data
        m=m[0]; self.req[c].append(m["m"])
        self._a({"o":"begin","c":c,"r":{"m":m["m"],"u":m["u"],"v":m["v"],"h":m["h"],"body":m["body"],"ka":m["ka"]}})
        self.left[c]=data; return self.more(None if not cuts else cuts[0],c)
    def more(self,n=None,c=0):
        d=self.left[c]; n=len(d) if n is None else min(n,len(d))
        if n==len(d): self._a({"o":"whole","c":c})
        self.s.data(d[:n],c); self.left[c]=d[n:]; return self
    def fin(self,c=0): self._a({"o":"fin","c":c}); self.s.fin(c); return self
    def rst(self,c=0): self._a({"o":"rst","c":c}); self.s.rst(c); return self
    def window(self,n,c=0): self._a({"o":"win","c":c,"on":n<0}); self.s.window(n,c); return self
    def maxsend(self,n,c=0): self.s.maxsend(n,c); return self
    def maxrecv(self,n,c=0): self.s.maxrecv(n,c); return self
    def pump(self): self.s.pump(); return self
    def gauge(self): self.s.gauge(); return self
    armed=False
    def kill(self,sig=15): self._a({"o":"term"},{"o":"round"}); self.s.kill(sig); return self
    def kill_at(self,n,sig=15): self.armed=True; self._a(); self.s.kill_at(n,sig); return self
    def late(self): self._a({"o":"alive"}); return self        # reached only by a server that has not stopped
    def rounds(self,n): self.s.rounds(n); return self
    # the backend that has been sent the text t
    def ans(self,t,data,bad=b""): self.bacts.append(("D",t,data,bad)); self.s._r("BD @%s %d"%(t,len(data)+len(bad)),data+bad); return self
    def bfin(self,t): self.bacts.append(("F",t)); self.s._l("BF @"+t); return self
    def brst(self,t): self.bacts.append(("X",t)); self.s._l("BX @"+t); return self
    def brecv(self,t,n): self.bacts.append(("R",t)); self.s._l("BR @%s %d"%(t,n)); return self
    def refuse(self,on): self.s.brefuse(on); return self
    def slow(self,w,m=-1): self._a({"o":"slow","on":w>=0}); self.s._l("BO %d %d"%(w,m)); return self
    def limit(self,m): self.s._l("BO -1 %d"%m); return self          # per send, of backends to come
    def open(self): self._a({"o":"slow","on":False}); self.s._l("BW * -1"); return self

class Bodies:
    """contents by number"""
    def __init__(self): self.all=[]
    def id(self,d):
        if d not in self.all: self.all.append(d)
        return self.all.index(d)+1
    def of(self,d): return [i+1 for i,x in enumerate(self.all) if x.startswith(d)]

def events(scn,res,listeners_there=1):
    bodies=Bodies(); ev=[]; left=set()
    # the contents that are planned: of requests, and of responses as far as they are sent at all
    for a in scn.acts:
        for e in a:
            if e["o"]=="begin": bodies.id(e["r"]["body"])
    cs={}; bs={}; told={}; nb=0
    def nobody(c):
        def f(m):
            st=cs[c]; n=sum(1 for x in st.msgs if x["st"]//100!=1)
            return n<len(scn.req.get(c,[])) and scn.req[c][n]=="HEAD"
        return f
    plan=list(scn.bacts); listeners=0; stopping=False
    def answer(b,good,bad):
        q=told.setdefault(b,{"st":None,"bad":False})
        if q["st"] is None:
            hd=bs[b].msgs and bs[b].msgs[-1]["m"]=="HEAD" if b in bs else False
            q["st"]=Stream("rsp",lambda m:hd)
        if not q["bad"]: q["st"].feed(good)
        if bad: q["bad"]=True
        st=q["st"]; assert not st.junk,(scn.id,st.b[:200])
        ms=[dict(m,whole=True) for m in st.msgs]
        fin=[i for i,m in enumerate(ms) if m["st"]//100!=1]
        # what follows the final response belongs to no request
        if fin and (len(ms)>fin[0]+1 or not st.idle()): q["bad"]=True; ms=ms[:fin[0]+1]
        elif not st.idle(): ms.append(dict(st.part(),whole=False))
        return ms,q["bad"]
    def rsp(m,whole):
        if not m["head"]: return {"head":False,"whole":False,"eof":False,"st":0,"v":"","h":[],"cid":0,"n":0,"ka":False}
        return {"head":True,"whole":whole,"eof":m["eof"],"st":m["st"],"v":m["v"],"h":m["h"],"body":m["body"],"ka":m["ka"]}
    def seen(m):
        own=not any(k=="X-Viriatum-Proxy" for k,_ in m["h"])
        return {"own":own,"head":True,"st":m["st"],"v":m["v"],"rs":m["rs"],"h":m["h"],"body":m["body"],"ka":m["ka"]}
    def parts(c):
        s=cs.get(c)
        if s is None or s.idle(): return []
        p=s.part()
        return [dict(seen(p),c=c)] if p["head"] else [{"c":c,"head":False,"n":0}]
    for t in res.ev:
        k=t[0]
        if k=="E" and t[1].startswith("a"):
            es=scn.acts[int(t[1][1:])]; ev+=[dict(e) for e in es]; stopping|=any(e["o"]=="term" for e in es); left|={e["c"] for e in es if e["o"] in ("fin","rst")}
        elif k=="AC": ev.append({"o":"acc","c":t[1]})
        elif k=="BC":
            ev.append({"o":"bref","host":t[2],"port":t[3]} if t[1]<0 else {"o":"bconn","b":t[1],"host":t[2],"port":t[3]})
        elif k=="BR":
            b=t[1]; s=bs.setdefault(b,Stream("req"))
            for m in s.feed(t[2]): ev.append({"o":"breq","b":b,"m":{x:m[x] for x in ("m","u","v","h","body")}}); told.pop(b,None)
            if s.junk: ev.append({"o":"junk","b":b,"d":s.b[:300].decode("latin1")}); return ev,bodies
        elif k=="BT":
            p=plan.pop(0); assert p[0]==t[1] and str(p[1])==str(t[3]),(p,t)
            if t[2]<0: continue
            if p[0]=="D":
                ms,bad=answer(t[2],p[2],p[3]); ev.append({"o":"ban","b":t[2],"ms":[rsp(m,m["whole"]) for m in ms],"bad":bad})
            elif p[0]=="F": ev.append({"o":"bfin","b":t[2]})
            elif p[0]=="X": ev.append({"o":"brst","b":t[2]})
        elif k=="BCL": ev.append({"o":"bcl","b":t[1]})
        elif k=="S":
            c=t[1]
            if c not in cs: cs[c]=Stream("rsp",nobody(c))
            for m in cs[c].feed(t[2]): ev.append({"o":"rsp","c":c,"m":seen(m)})
            if cs[c].junk: ev.append({"o":"junk","c":c,"d":cs[c].b[:300].decode("latin1")}); return ev,bodies
        elif k=="CL":
            c=t[1]; m=cs[c].end() if c in cs and c not in left and not stopping else None
            if m: ev.append({"o":"rsp","c":c,"m":seen(m)})
            ev.append({"o":"cl","c":c,"ps":parts(c)})
        elif k=="G": ev.append({"o":"gauge","g":list(t[1:])})
        elif k=="B": ev.append({"o":"busy","n":t[1]})
        elif k=="CLLISTEN": listeners+=1
        elif k=="K" and scn.armed: ev.append({"o":"term"}); stopping=True
        elif k=="NR" and scn.armed: ev.append({"o":"round"})
        elif k=="N": ev.append({"o":"stop","m":t[1]})
        elif k=="MAINRET": ev.append({"o":"exit","status":t[1],"listeners":max(0,listeners_there-listeners),"mods":["pa","pb","pc"]})
        elif k=="Q":
            ps=[]; [ps.extend(parts(c)) for c in sorted(cs)]
            ev.append({"o":"q","ps":ps,"bps":[b for b in sorted(bs) if not bs[b].idle()]})
    return ev,bodies

def number(ev,bodies):
    """contents by number: an original is named by the longest content it is a beginning of"""
    for e in ev:
        for s in e.get("ms",[]):
            if "body" in s: bodies.id(s["body"])
    def orig(d):
        d=dict(d); b=d.pop("body"); d["n"]=len(b); d["cid"]=max(bodies.of(b),key=lambda i:(len(bodies.all[i-1]),-i)); return d
    def got(d):
        if "body" not in d: return d
        d=dict(d); b=d.pop("body"); d["n"]=len(b); d["of"]=bodies.of(b); return d
    out=[]
    for e in ev:
        e=dict(e)
        if e["o"]=="begin": e["r"]=orig(e["r"]); e["r"]["u"]=B(e["r"]["u"])
        elif e["o"]=="breq": e["m"]=got(e["m"]); e["m"]["u"]=B(e["m"]["u"])
        elif e["o"]=="ban": e["ms"]=[orig(s) if "body" in s else s for s in e["ms"]]
        elif e["o"]=="rsp": e["m"]=got(e["m"])
        if "ps" in e: e["ps"]=[got(p) for p in e["ps"]]
        out.append(e)
    return out

LOCS=[("/px","127.0.0.1",9001),("/py/","127.0.0.1",9002),("/q/r","127.0.0.3",80)]
CONSTS="CONSTANTS Locs <- LocRecs"
def encrypt(scns):
    """the clients of these scenarios speak TLS"""
    for s in scns:
        out=[]
        for l in s.s.b:
            out.append(l)
            if l[:2]==b"C ": out.append(b"Y %d %d %d %d %d\n"%((int(l.split()[1]),)+srv.tlsopt(s,int(l.split()[1]))))
        s.s.b=out
    return scns
def world(c,locs=LOCS,tls=None,tail="/"):
    return World(c,"dispatch",tls=tls,locs=[dict(pat=p,h="proxy",extra="proxy_pass=http://%s%s%s\n"%(h,":%d"%n if n!=80 else "",tail)) for p,h,n in locs])
def locs_file(locs=LOCS): return "".join(json.dumps({"pat":B(p),"host":h,"port":n})+"\n" for p,h,n in locs)
def run(w,scns,tmo=10,hangs=0): return srv.run(None,w,scns,tmo,hangs)
def conform(c,w,scns,kind="trace",batch=1500,locs=LOCS):
    tr=[]; by={}
    def rec(part,res):
        o=[]
        for s in part:
            if res[s.id].ok: e,b=events(s,res[s.id]); o.append({"id":s.id,"ev":number(e,b)})
        return o
    for i in range(0,len(scns),batch):
        part=scns[i:i+batch]; by.update((s.id,s) for s in part)
        try: res=run(w,part,hangs=2)
        except vlib.HarnessError as e:
            if "did not start" in str(e): c.violation("startup",str(e)[:600],{"ini":w.ini}); return
            raise
        bad=srv.failed(res,part); skipped=[s for s in part if res[s.id].skip]
        if bad:
            again=run(w,bad)
            if skipped and all(again[s.id].ok for s in bad):
                res.update(run(w,skipped)); more=srv.failed(res,skipped); bad+=more; again.update(run(w,more) if more else {})
            for s in bad:
                if not again[s.id].ok: c.violation("crash","scenario %s: %s"%(s.id,again[s.id].why()),{"scenario":srv.show(s),"stderr":again[s.id].stderr.decode("latin1")[:3000]})
        tr+=rec(part,res)
    c.note("scenarios_run",{"proxy":len(scns)})
    f={"locs.ndjson":locs_file(locs)}
    rej=c.validate("ProxyTrace",tr,CONSTS,files=f)
    if rej:
        sel=[by[t["id"]] for t,_ in rej]; tr2=rec(sel,run(w,sel))
        for t,p in c.validate("ProxyTrace",tr2,CONSTS,files=f):
            bad=t["ev"][p] if p<len(t["ev"]) else "(end)"
            c.violation(kind,"scenario %s: event %d is not allowed by Proxy.tla: %s"%(t["id"],p+1,srv.brief(bad)),{"scenario":srv.show(by[t["id"]]),"trace":srv.brief_tr(t["ev"][:p+1])})
    if tr: m=tr[len(tr)//2]; c.sample({"scenario":m["id"],"trace":json.dumps(srv.brief_tr(m["ev"]))[:700]})

# ------------------------------------------- the design and what it generates
def cfg(nc,maxreq,kinds,bad,slow,next="Next",inv=True):
    return ("CONSTANTS Locs <- MCLocs\nNC = %d\nMaxReq = %d\nKinds = {%s}\nBad = %s\nSlowToo = %s\nINIT Init\nNEXT %s\nVIEW View\n%sCHECK_DEADLOCK FALSE\n"
        %(nc,maxreq,", ".join('"%s"'%k for k in kinds),str(bad).upper(),str(slow).upper(),next,"INVARIANTS Allowed NothingLeft\n" if inv else ""))
def design(c,*a,few=False): c.mc("ProxyMC",cfg(*a)+("CONSTRAINT Few\n" if few else ""),workers=8)
def histories(c,pre,*a,keep=1.0,lazy=0.0,walks=0,length=0):
    """scenarios: one per transition of the design, or random walks; lazy: the proxy is not given time after each step"""
    out=[]; R=c.rnd
    if walks: hs=c.gen("ProxyWalk",cfg(*a,next="WNext",inv=False)+"CONSTANT WalkLen = %d\n"%length,simulate=walks,depth=12*length)
    else: hs=c.gen("ProxyGen",cfg(*a,next="GNext",inv=False))
    for n,h in enumerate(hs):
        if keep<1 and R.random()>keep: continue
        out.append(scenario("%s%d"%(pre,n),h,R,R.choice([0.3,0.7]) if R.random()<lazy else 0))
    return out
KIND={"keep":dict(framing="len"),"drop":dict(framing="len",ka=False),"eof":dict(framing=None,ka=False)}
def scenario(id,h,R,lazy,s=None,base=0,end=None):
    """base: added to the numbers of the clients; end: called with the scenario after every step"""
    s=s or PScn(id); n={}; rest={}; T=lambda i:"TAG%dE"%(i+10*base); ch=R.random()<.4
    for k,e in enumerate(h):
        o=e[0]; wait=R.random()>=lazy or (k+1<len(h) and h[k+1][0] in ("ref","slow","win","head","info","rest","bad","bfin","brst"))
        if o=="conn": s.conn(base+e[1]); n[e[1]]=0
        elif o=="begin":
            c=e[1]; n[c]+=1; m="POST" if ch else "GET"; i=10*c+n[c]
            d=request({49:"/px/a",50:"/py/a"}[e[2]],method=m,h=(("X-Tag",T(i)),),body=b"body %d"%i if ch else b"",framing="chunked" if ch else None)
            s.send(d,base+c,cuts=[R.randrange(1,len(d))])
        elif o=="end": s.more(None,base+e[1])
        elif o=="fin": s.fin(base+e[1])
        elif o=="rst": s.rst(base+e[1])
        elif o=="win": s.window(-1 if e[2] else 0,base+e[1])
        elif o=="ref": s.refuse(1 if e[1] else 0)
        elif o=="slow":
            if e[1]: s._a({"o":"slow","on":True}); s.s._l("BW * 0")
            else: s.open()
        else:
            i=e[1]; t=T(i)
            if o=="head":
                kw=dict(KIND[e[2]])
                if ch and kw["framing"]=="len": kw["framing"]="chunked"
                d=response(200,body=b"response to %d"%i,**kw); z=d.index(b"\r\n\r\n")+4+(0 if R.random()<.5 else 4); rest[i]=d[z:]; s.ans(t,d[:z])
            elif o=="info": s.ans(t,response(100,framing=None,ka=False))
            elif o=="rest": s.ans(t,rest.pop(i))
            elif o=="bad": s.ans(t,b"",b"\x00\x00junk\r\n\r\n")
            elif o=="bfin": s.bfin(t)
            elif o=="brst": s.brst(t)
        if end and end(k,s): return s
        # what a backend does presumes that the proxy has done what it was to do before
        if wait or o in ("ref","slow","win"): s.pump()
    return s.pump()
