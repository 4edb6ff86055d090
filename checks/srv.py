"""Scenarios for the server: builds sites and scripts, abstracts what the server
did into the events of spec/Server.tla, and lets TLC judge them. Nothing here
decides what an answer should be; responses are only taken apart."""
import base64, hashlib, json, os, re, ssl, sys, tempfile
import vlib, vbuild, vnetrun
from vnetrun import Script, Site
B=lambda x: list(x if isinstance(x,(bytes,bytearray)) else x.encode("latin1"))

# ---------------------------------------------------------------- requests
class Req:
    """one request: its bytes and what the specification needs to know of it"""
    def __init__(self,target,ka=True,method="GET",ver="1.1",headers=(),rg=None,inm=None,auth=None,body=b"",conn=None,chunked=False,bad=False,raw=None,eol="\r\n",**meta):
        t=target if isinstance(target,bytes) else target.encode("latin1")
        h=[]
        if conn is None: conn="keep-alive" if ka else ("close" if ver=="1.1" else None)
        if conn: h.append(("Connection",conn))
        if rg is not None: h.append(("Range",rg))
        if inm is not None: h.append(("If-None-Match",inm))
        au={"k":"none","u":"","p":""}
        if auth is not None:
            v=auth
            if isinstance(auth,tuple): v="Basic "+base64.b64encode(("%s:%s"%auth).encode("latin1")).decode()
            h.append(("Authorization",v)); au=cred(v)
        h+=list(headers)
        if chunked: h.append(("Transfer-Encoding","chunked"))
        elif body or method in ("POST","PUT"): h.append(("Content-Length",str(len(body))))
        b=method.encode()+b" "+t+(" HTTP/%s"%ver).encode()+eol.encode()
        for k,v in h: b+=k.encode("latin1")+(b":" if v in ("",b"") else b": ")+(v if isinstance(v,bytes) else v.encode("latin1"))+eol.encode()
        b+=eol.encode()
        if chunked:
            i=0; n=0
            while i<len(body):
                k=min(len(body)-i,[1,7,300,5000][n%4]); b+=b"%x\r\n"%k+body[i:i+k]+b"\r\n"; i+=k; n+=1
            b+=b"0\r\n\r\n"
        else: b+=body
        self.bytes=raw if raw is not None else b
        self.rec={"u":B(t),"ka":bool(ka),"bad":bool(bad),"au":au,"m":method}
        if rg is not None: self.rec["rg"]=B(rg)
        if inm is not None: self.rec["inm"]=inm
        self.meta=meta
def Bad(raw,at=None): return Req("/",raw=raw,bad=True,ka=False,**({} if at is None else {"at":at}))
def cred(v):
    """what an Authorization value carries, by the definition of the Basic scheme"""
    v=v if isinstance(v,str) else v.decode("latin1")
    m=re.match(r"(\S*) (.*)$",v,re.S)
    if not m: return {"k":"bad","u":"","p":""}
    try: d=base64.b64decode(m.group(2).encode("latin1"),validate=True)
    except Exception: return {"k":"bad","u":"","p":""}
    exact=base64.b64encode(d).decode()==m.group(2) and m.group(1)=="Basic" and b"\0" not in d
    d=d.decode("latin1")
    if ":" not in d: return {"k":"bad","u":"","p":""}
    u,p=d.split(":",1)
    # another scheme name, or a non-canonical encoding: whether it counts is not determined
    return {"k":"basic" if exact else "either","u":u,"p":p}

# ---------------------------------------------------------------- sites
class World:
    """a site on disk and its description for the specification"""
    reuse=False   # whether released memory is handed out again at once
    def __init__(self,c,handler="file",index=None,locs=(),files=(),ini_extra="",use_template=True,args=("--port=8080","--no-log"),raw_ini=None,tls=None,eff_handler=None,eff_index=None,san="asan"):
        self.c=c; self.build=c.build("vnet","modules",san=san); self.args=args
        self.contents={}   # cid -> bytes
        self.tree={}       # rel path -> entry
        site=Site(self.build,None); self.site=site; self.dir=site.dir
        ini="[general]\nport=8080\nhost=0.0.0.0\nhandler=%s\nuse_template=%d\n"%(handler,1 if use_template else 0)
        if index: ini+="index=%s\n"%index
        ini+=ini_extra
        self.tls=tls
        if tls:
            for e in ("crt","key"): site.put("etc/%s.%s"%(tls,e),open(os.path.join(vbuild.HARN,"tls","%s.%s"%(tls,e)),"rb").read())
            ini+="ssl=1\nssl_csr=%s/etc/%s.crt\nssl_key=%s/etc/%s.key\n"%(site.dir,tls,site.dir,tls)
        L=[]
        for n,l in enumerate(locs):
            d=dict(name="l%d"%n,kind="prefix",pat="/",h="file",base=None,users=None,extra=""); d.update(l)
            rx={"prefix":"^%s","exact":"^%s$","suffix":"%s$","contains":"%s","any":""}[d["kind"]]
            rx=rx%d["pat"] if "%s" in rx else ""
            ini+="[location:%s]\npath=%s\nhandler=%s\n"%(d["name"],rx.replace(".","\\."),d["h"])
            if d["base"] is not None: ini+="base_path=%s/%s\n"%(site.dir,d["base"])
            users=d["users"]
            if users is not None:
                ini+="auth_basic=Realm\n"
                if users=="$default": ini+="auth_file=$default\n"; users=[("root","root")]
                elif isinstance(users,str):
                    site.put("etc/pw%d"%n,users.encode("latin1")); ini+="auth_file=%s/etc/pw%d\n"%(site.dir,n)
                    users=[tuple(x.split(":")[:2]) for x in users.replace("\r","").split("\n") if ":" in x and x[0]!=":"]
                else:
                    site.put("etc/pw%d"%n,"".join("%s:%s\n"%u for u in users).encode("latin1")); ini+="auth_file=%s/etc/pw%d\n"%(site.dir,n)
            ini+=d["extra"].replace("%DIR%",site.dir)
            L.append({"kind":d["kind"],"pat":B(d["pat"]),"h":d["h"],"hasbase":d["base"] is not None,"base":B(d["base"] or ""),"auth":users is not None,"users":[list(u) for u in (users or [])],"pw":B("etc/pw%d"%n) if d["users"] not in (None,"$default") else [],"script":d.get("script","")})
        if raw_ini is not None: ini=raw_ini.replace("%DIR%",site.dir)
        open(site.dir+"/etc/viriatum.ini","w").write(ini); self.ini=ini
        self.rec={"handler":eff_handler or handler,"index":[B(x) for x in ((index if eff_index is None else eff_index) or "").split()],"locs":L,"secure":bool(tls)}
        self.print=0
        if tls:
            for x in ssl.PEM_cert_to_DER_cert(open(os.path.join(vbuild.HARN,"tls",tls+".crt")).read()): self.print=(self.print*31+x)&0xffffffff
        for f in files: self.put(*f)
        self.public=set()
        for d,_,names in os.walk(site.dir+"/www/templates"):
            for n in names: p="www/templates/"+n; self.public.add(self._reg(p,open(site.dir+"/"+p,"rb").read(),0))
        self._reg(("etc/viriatum.ini"),ini.encode(),0)
        for n in os.listdir(site.dir+"/etc"):
            if n.startswith("pw"): self._reg("etc/"+n,open(site.dir+"/etc/"+n,"rb").read(),0)
    def _reg(self,path,data,mt):
        cid=None
        for k,v in self.contents.items():
            if v==data: cid=k
        if cid is None: cid=len(self.contents)+1; self.contents[cid]=data
        self.tree[path]={"t":"f","n":len(data),"cid":cid,"mt":mt}
        p=os.path.dirname(path)
        while p: self.tree.setdefault(p,{"t":"d"}); p=os.path.dirname(p)
        return cid
    def put(self,path,data=b"",mtime=None):
        if data is None: self.site.mkdir(path); p=path
        else:
            t=1500000000+len(self.tree) if mtime is None else mtime
            self.site.put(path,data,mtime=t); self._reg(path,data,t)
            return
        while p: self.tree.setdefault(p,{"t":"d"}); p=os.path.dirname(p)
    def content(self,data):
        for k,v in self.contents.items():
            if v==data: return k
        k=len(self.contents)+1; self.contents[k]=data; return k
    def record(self):
        r=dict(self.rec,listeners=self.listeners)
        fs=[{"p":[],"t":"d"}]
        for p,e in sorted(self.tree.items()): fs.append(dict(e,p=B(p.encode("utf-8","surrogateescape"))))
        r["fs"]=fs; return r
    def close(self): self.site.close()

# ---------------------------------------------------------------- scenarios
class Scn:
    """a scenario: network and file system actions and the events they are"""
    def __init__(self,w,id):
        self.w=w; self.id=str(id); self.s=Script(self.id); self.acts=[]; self.reqs={}; self.stream={}; self.sent={}; self.dlv={}; self.cut=set(); self.clr=set()
    def _a(self,*evs):
        self.s.mark("a%d"%len(self.acts)); self.acts.append([e for e in evs])
    def conn(self,c=0):
        self.reqs[c]=[]; self.stream[c]=b""; self.sent[c]=0; self.dlv[c]=0
        self._a({"o":"conn","c":c}); self.s.connect(c)
        if self.w.tls: self.tls(c,*self.w.tlsopt(self,c))
        return self
    def tls(self,c=0,chunk=0,ver=13,flip=-1,rude=0): self.s.tls(c,chunk,ver,flip,rude); return self
    def rekey(self,c=0): self.s.rekey(c); return self
    def hangup(self,c=0): self._a({"o":"fin","c":c}); self.s.hangup(c); return self
    def plan(self,c,*reqs):
        """the requests that will be written on c"""
        for r in reqs: self.reqs[c].append(r); self.stream[c]+=r.bytes
        return self
    def send(self,n=None,c=0):
        """delivers the next n bytes of the plan (all that are left if None) as one segment"""
        left=len(self.stream[c])-self.sent[c]
        n=left if n is None else min(n,left)
        d=self.stream[c][self.sent[c]:self.sent[c]+n]; self.sent[c]+=n
        ev=[]; off=0
        for i,r in enumerate(self.reqs[c]):
            off+=len(r.bytes)
            if i>=self.dlv[c] and (off<=self.sent[c] or (r.rec["bad"] and off-len(r.bytes)+r.meta.get("at",len(r.bytes))<=self.sent[c])) and i==self.dlv[c]:
                self.dlv[c]+=1; ev.append({"o":"req","c":c,"r":r.rec})
        self._a(*ev); self.s.data(d,c); return self
    def req(self,*reqs,c=0): self.plan(c,*reqs); return self.send(None,c)
    def wild(self,c=0): self._a({"o":"wild","c":c}); return self
    def raw(self,d,c=0): self._a(); self.s.data(d,c); return self
    def pump(self): self.s.pump(); return self
    def rounds(self,n): self.s.rounds(n); return self
    def window(self,n,c=0): self._a({"o":"win","c":c,"on":n!=0 and n<0}); self.s.window(n,c); return self
    def limit(self,n): self._a({"o":"cap","n":n}); self.s.limit(n); return self   # the descriptors the system gives for connections
    def lost(self,c,why=103): self._a(*([] if why==4 else [{"o":"wild","c":c}])); self.s.lost(c,why); return self   # gone before it is accepted
    def maxsend(self,n,c=0): self.s.maxsend(n,c); return self
    def maxrecv(self,n,c=0): self.s.maxrecv(n,c); return self
    def clear(self,c=0):
        """a client that does not know it is to speak TLS"""
        self.reqs[c]=[]; self.stream[c]=b""; self.sent[c]=0; self.dlv[c]=0; self.clr.add(c)
        self._a({"o":"conn","c":c},{"o":"wild","c":c}); self.s.connect(c); return self
    def plain(self,c): return c in self.clr
    def fin(self,c=0): self._a({"o":"fin","c":c}); self.s.fin(c); return self
    def rst(self,c=0): self._a({"o":"rst","c":c}); self.s.rst(c); return self
    def gauge(self): self.s.gauge(); return self
    def kill(self,sig=15): self._a({"o":"term"},{"o":"round"}); self.s.kill(sig); return self
    def kill_at(self,n,sig=15): self.armed=True; self._a(); self.s.kill_at(n,sig); return self   # just before the n-th system call from here
    def told(self): self.armed=True; self._a(); self.s.told(); return self    # a worker: when it is sent a signal
    def told_at(self,n): self.armed=True; self._a(); self.s.kill_at(n,0); return self  # a worker: the signal it is sent, just before the n-th system call
    def theirs(self): self.s.theirs(); return self            # a connection which another process accepts
    def turn(self,n): self.s.turn(n); return self            # a step of a history of several processes: not before the n-th
    def done(self): self.s.done(); return self
    def late(self): self._a({"o":"alive"}); return self        # reached only by a server that has not stopped
    armed=False
    def write(self,path,data,mtime):
        cid=self.w.content(data)
        self._a({"o":"fs","p":B(path),"e":{"t":"f","n":len(data),"cid":cid,"mt":mtime}})
        self.s.write(self.w.dir+"/"+path,data); self.s.mtime(self.w.dir+"/"+path,mtime); return self
    def passwd(self,n,users,mtime):
        """the password file of location n gets other entries, all of a sudden"""
        data="".join("%s:%s\n"%u for u in users).encode("latin1"); p="etc/pw%d"%n
        self._a({"o":"fs","p":B(p),"e":{"t":"f","n":len(data),"cid":self.w.content(data),"mt":mtime,"us":[list(u) for u in users]}})
        self.s.unlink(self.w.dir+"/"+p); self.s.write(self.w.dir+"/"+p,data); self.s.mtime(self.w.dir+"/"+p,mtime); return self
    def unlink(self,path):
        self._a({"o":"fs","p":B(path),"e":{"t":"x"}}); self.s.unlink(self.w.dir+"/"+path); return self

def records(d):
    """whether d may be the beginning of a sequence of TLS records"""
    while d:
        if not 20<=d[0]<=23 or d[1:2] not in (b"",b"\x03") or d[2:3] not in (b"",b"\0",b"\1",b"\2",b"\3",b"\4"): return False
        if len(d)<5: return True
        d=d[5+d[3]*256+d[4]:]
    return True
STATUS=re.compile(rb"HTTP/1\.[01] ([1-5]\d\d) ([^\r\n\x00]*)\r\n")
HDR=re.compile(rb"([!#$%&'*+.^_`|~0-9A-Za-z-]+):[ \t]*([^\r\n\x00]*)\r\n")
def parse_head(d):
    """(None if incomplete | 'bad' | (status, headers, header size))"""
    e=d.find(b"\r\n\r\n")
    if e<0: return "bad" if (len(d)>16 and not STATUS.match(d+b"\r\n") and b"\r\n" in d) or len(d)>65536 or not b"HTTP/1.1 ".startswith(d[:9]) and not b"HTTP/1.0 ".startswith(d[:9]) else None
    m=STATUS.match(d)
    if not m: return "bad"
    pos=m.end(); h=[]
    while pos<e+2:
        k=HDR.match(d,pos)
        if not k or k.end()>e+2: return "bad"
        h.append((k.group(1).decode().lower(),k.group(2).decode("latin1").rstrip(" \t"))); pos=k.end()
    return int(m.group(1)),h,e+4
LIST=re.compile(rb'<td class="icon (folder|text|link)"></td>\s*(?:<td class="icon[^>]*></td>\s*)*<td class="left name"><a href="([^"]*)">([^<]*)</a></td>',re.S)
def rsp_event(w,head,body,raw):
    st,h,_=head
    def one(n):
        v=[x for k,x in h if k==n]
        return v[0] if len(v)==1 else ("" if not v else None)
    for n in ("connection","content-length","content-type","content-range","etag","accept-ranges","location","www-authenticate"):
        if one(n) is None: return None
    cl=one("content-length")
    if not re.match(r"\d{1,9}$",cl): return None
    cn=one("connection").lower()
    if cn not in ("keep-alive","close"): return None
    e={"st":st,"ka":cn=="keep-alive","len":int(cl),"bl":len(body),"ct":one("content-type"),"et":one("etag"),"ar":one("accept-ranges")=="bytes","loc":B(one("location")),"wa":one("www-authenticate").lower().startswith("basic "),"cr":[],"b":[],"err":[],"leak":[],"hello":False,"gif":False}
    if one("content-range"):
        m=re.match(r"bytes (?:(\d{1,15})-(\d{1,15})|\*)/(\d{1,15})$",one("content-range"))
        if not m: return None
        e["cr"]=w.place(*[int(x) if x else -1 for x in m.groups()])
        if max(e["cr"])>10**9: return None
    off=e["cr"][0] if e["cr"] and e["cr"][0]>=0 else 0
    if body:
        for cid,data in w.contents.items():
            if data[off:off+len(body)]==body: e["b"].append([cid,off])
    if st>=400:
        e["err"]=sorted(set(int(x) for x in re.findall(rb"(?<![\w/.-])([45]\d\d)(?![\w/.-])",body)))
        for cid,data in w.contents.items():
            if len(data)>=12 and cid not in w.public and data[:12] in body: e["leak"].append(cid)
    if w.heads: e["head"]=[B(x) for x in raw.split(b"\r\n")]
    if body==b"Hello Viriatum": e["hello"]=True
    if body[:6] in (b"GIF89a",b"GIF87a") and body[-1:]==b";": e["gif"]=True
    if b"file-listing" in body:
        e["ls"]=[{"n":B(n2),"t":"d" if k==b"folder" else "f"} for k,n1,n2 in LIST.findall(body)]
        if any(n1!=n2 for k,n1,n2 in LIST.findall(body)): return None
    for f in w.abstract: f(e,h,body)
    return e
World.abstract=()
def tlsopt(scn,c):
    """how client c of a scenario speaks TLS, when nothing else is said: sizes of the pieces, version, how it leaves"""
    h=hashlib.sha256(("%s/%d"%(scn.id,c)).encode()).digest()
    return [0,0,0,0,700,97,13,1][h[0]%8],12 if h[1]%3==0 else 13,-1,h[2]%2
World.tlsopt=staticmethod(tlsopt)
World.heads=False
World.place=staticmethod(lambda a,b,n:[a,b,n])      # of a part of a file to the part of it that is known
def events(w,scn,res):
    """the events of one run, in order; [] with a junk event when the bytes are no responses"""
    ev=[]; buf={}; done={}; listeners=0
    for t in res.ev:
        k=t[0]
        if k=="E":
            if t[1].startswith("a"): ev+=scn.acts[int(t[1][1:])]
        elif k=="AC": ev.append({"o":"acc","c":t[1]})
        elif k=="HS": ev.append({"o":"hs","c":t[1],"cert":t[2]==w.print})
        elif k=="TERR": ev.append({"o":"tlserr","c":t[1]})
        elif k=="S" and scn.plain(t[1]):
            # what a client that does not speak TLS gets from a server that does: records
            c=t[1]; buf[c]=buf.get(c,b"")+t[2]
            if not records(buf[c]): ev.append({"o":"clear","c":c,"d":buf[c][:80].decode("latin1")}); return ev
        elif k=="S":
            c=t[1]; buf[c]=buf.get(c,b"")+t[2]
            while buf[c]:
                p=parse_head(buf[c])
                if p is None: break
                if p=="bad": ev.append({"o":"junk","c":c,"d":buf[c][:80].decode("latin1")}); return ev
                rq=scn.reqs[c][done.get(c,0)] if done.get(c,0)<len(scn.reqs.get(c,[])) else None
                cl=[v for n,v in p[1] if n=="content-length"]
                n=int(cl[0]) if len(cl)==1 and re.match(r"\d{1,9}$",cl[0]) else 0
                if rq is not None and rq.rec["m"]=="HEAD" and not w.head_body: n=0
                if p[0] in (304,204) or p[0]<200: n=0
                if len(buf[c])<p[2]+n: break
                e=rsp_event(w,p,buf[c][p[2]:p[2]+n],buf[c][:p[2]])
                if e is None: ev.append({"o":"junk","c":c,"d":buf[c][:300].decode("latin1")}); return ev
                buf[c]=buf[c][p[2]+n:]; done[c]=done.get(c,0)+1
                ev.append({"o":"rsp","c":c,"e":e})
        elif k=="CL": ev.append({"o":"cl","c":t[1],"part":bool(buf.get(t[1])) and not scn.plain(t[1])})
        elif k=="CLLISTEN": listeners+=1
        elif k=="Q": ev.append({"o":"q","part":[c for c in buf if buf[c] and not scn.plain(c)]})
        elif k=="G": ev.append({"o":"gauge","g":list(t[1:])})
        elif k=="B": ev.append({"o":"busy","n":t[1]})
        elif k=="MAINRET": ev.append({"o":"exit","status":t[1],"listeners":max(0,w.listeners-listeners),"mods":["pa","pb","pc"]})
        elif k=="K" and scn.armed: ev.append({"o":"term"})
        elif k=="NR": ev.append({"o":"round"})
        elif k=="N": ev.append({"o":"stop","m":t[1]})
        elif k in ("REFUSED","K"): pass
    return ev
World.head_body=False
World.listeners=1

CONSTS="CONSTANTS Site <- TheSite FsBase <- TheFs"
def run(c,w,scns,tmo=10,hangs=0):
    res=w.site.run([s.s for s in scns],args=w.args,tmo=tmo,hangs=hangs,reuse=w.reuse)
    if w.site.startup: raise vlib.HarnessError("server did not start: %r"%(w.site.startup,))
    miss=[s.id for s in scns if s.id not in res or res[s.id].exit is None]
    if miss: raise vlib.HarnessError("no result for scenarios %s"%miss[:3])
    return res
def traces(w,scns,res,site=1): return [{"id":s.id,"site":site,"ev":events(w,s,res[s.id])} for s in scns if res[s.id].ok]
def show(scn):
    return scn.s.bytes().decode("latin1")[:4000]
def pending(ev,p):
    """the request the rejected event p concerns"""
    if p>=len(ev): return ""
    k=ev[p].get("c"); q=[]
    for e in ev[:p]:
        if e.get("c")==k and e["o"]=="req": q.append(e["r"])
        if e.get("c")==k and e["o"]=="rsp" and q: q.pop(0)
    return " | pending request: "+brief(q[0])[:300] if q else ""
def failed(res,scns):
    """the scenarios that did not end well; of those that were stopped for taking too long, a few"""
    f=[s for s in scns if not res[s.id].ok and not res[s.id].skip]
    late=[s for s in f if res[s.id].signal in (9,14,24)]
    return [s for s in f if s not in late]+late[:8]
def conform(c,w,scns,kind="trace",key=None,batch=1500):
    return conform_many(c,[(w,scns)],kind,key,batch)[0]
def conform_many(c,ws,kind="trace",key=None,batch=1500):
    """runs the scenarios of each world and validates every run against spec/Server.tla"""
    out=[]; work=[]
    for w,scns in ws:
        allres={}
        for i in range(0,len(scns),batch):
            part=scns[i:i+batch]
            try: res=run(c,w,part,hangs=2)
            except vlib.HarnessError as e:
                if "did not start" in str(e): c.violation("startup",str(e)[:600],{"ini":w.ini,"args":w.args}); break
                raise
            allres.update(res)
            bad=failed(res,part); skipped=[s for s in part if res[s.id].skip]
            if bad:
                again=run(c,w,bad)
                if skipped and all(again[s.id].ok for s in bad):   # no hang after all: run the others too
                    res.update(run(c,w,skipped)); more=failed(res,skipped); bad+=more; again.update(run(c,w,more) if more else {})
                for s in bad:
                    if not again[s.id].ok: c.violation("crash","scenario %s: %s"%(s.id,again[s.id].why()),{"scenario":show(s),"stderr":again[s.id].stderr.decode("latin1")[:3000],"ini":w.ini},key=key(s,None) if key else None)
            allres.update(res); work.append((w,part,traces(w,part,res)))
        out.append(allres)
    if not work: return out
    ids=[w for w,_ in ws]; rec="".join(json.dumps(w.record())+"\n" for w in ids)
    tr=[]
    for w,part,ts in work:
        n=ids.index(w)
        for t in ts: tr.append({"id":"%d/%s"%(n,t["id"]),"site":n+1,"ev":t["ev"]})
        c.note("scenarios_run",{w.rec["handler"]:len(part)})
    rej=c.validate("ServerTrace",tr,CONSTS,files={"site.ndjson":rec})
    if rej:
        rid={t["id"] for t,_ in rej}; tr2=[]; sel={}
        for w,part,ts in work:
            n=ids.index(w); ss=[s for s in part if "%d/%s"%(n,s.id) in rid]
            if not ss: continue
            res2=run(c,w,ss)
            for s in ss: sel["%d/%s"%(n,s.id)]=(w,s)
            for t in traces(w,ss,res2): tr2.append({"id":"%d/%s"%(n,t["id"]),"site":n+1,"ev":t["ev"]})
        for t,p in c.validate("ServerTrace",tr2,CONSTS,files={"site.ndjson":rec}):
            w,s=sel[t["id"]]; bad=t["ev"][p] if p<len(t["ev"]) else "(end)"
            c.violation(kind,"scenario %s: event %d is not allowed by Server.tla: %s%s"%(s.id,p+1,brief(bad),pending(t["ev"],p)),{"scenario":show(s),"trace":brief_tr(t["ev"][:p+1]),"ini":w.ini},key=key(s,bad) if key else None)
    if tr:
        m=tr[len(tr)//2]; c.sample({"scenario":m["id"],"trace":json.dumps(brief_tr(m["ev"]))[:700]})
    return out
def brief(e):
    def f(x):
        if isinstance(x,list) and len(x)>2 and all(isinstance(v,int) and 0<=v<256 for v in x): return bytes(x).decode("latin1")[:120]
        if isinstance(x,list): return [f(v) for v in x[:40]]
        if isinstance(x,dict): return {k:f(v) for k,v in x.items()}
        return x
    return json.dumps(f(e))[:500]
def brief_tr(ev): return [brief(e) for e in ev]
