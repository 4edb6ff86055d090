"""the server is asked to terminate at every moment"""
from srv import *
import srv, check_S03, check_S13, check_S17, proxy, turns
from check_S15 import rq, tag
SIGS=[15,2,1,3]
def proxied(c):
    """with requests passed on to backends in every phase"""
    R=c.rnd; KS=["keep","drop","eof","info"]; out=[]
    hs=c.gen("ProxyGen",proxy.cfg(1,2,["keep","eof"] if c.thorough else ["keep"],True,True,next="GNext",inv=False)); hs=R.sample(hs,min(len(hs),4000 if c.thorough else 300))
    hs+=c.gen("ProxyWalk",proxy.cfg(3,3,KS,True,True,next="WNext",inv=False)+"CONSTANT WalkLen = 20\n",simulate=3000 if c.thorough else 250,depth=240)
    def tail(s):
        for k in range(12): s.conn(60+k).send(rq(6000+k,"/hello"),60+k).pump()
        s.conn(99).pump(); s.late(); return s
    for n,h in enumerate(hs):
        how=R.choice(["kill","kill","at"]); at=R.randrange(len(h)) if R.random()<.6 else len(h)-1; sig=R.choice(SIGS)
        def end(k,s):
            if k!=at: return False
            if how=="at": s.kill_at(R.choice([1,1,2,2,3,4,5,6,8,10,14,20]),sig); return False
            s.rounds(R.choice([0,0,1,1,2,3,5])).kill(sig); return True
        out.append(tail(proxy.scenario("px%d"%n,h,R,R.choice([0,.3,.7]),end=end)))
    # the pieces of larger exchanges, by the system call
    big=bytes(R.randrange(256) for _ in range(50000))
    for f in ("len","chunked",None):
        for n in range(1,90 if c.thorough else 40):
            s=proxy.PScn("pb%s%d"%(f,n)).conn()
            if n%3==0: s.maxsend(R.choice([500,20000]))
            s.kill_at(n,R.choice(SIGS)).send(rq(n,"/px/b",method="POST",body=big[:n*100],framing=R.choice(["len","chunked"]),sizes=(999,))).pump()
            d=proxy.response(200,body=big,framing=f,ka=f is not None,**(dict(sizes=(4000,77)) if f=="chunked" else {})); z=R.randrange(1,len(d))
            s.ans(tag(n),d[:z]).pump().ans(tag(n),d[z:]).pump()
            if f is None: s.bfin(tag(n)).pump()
            out.append(tail(s))
    w=proxy.world(c)
    proxy.conform(c,w,out); w.close()
def turning(c):
    """at the end of every history of the clients"""
    A=["keep","drop","bad"]
    if c.thorough: turns.design(c,2,2,A,True,True,True); turns.live(c,1,2,A,True,True,True)
    else: turns.design(c,1,2,A,True,True,True); turns.live(c,1,2,["keep"],True,True,True)
    hs=[h for h in turns.histories(c,2,1,A,True,True,True)+turns.histories(c,1,2,A,True,True,True)+turns.walks(c,6000 if c.thorough else 500,14,4,3,A,True,True,True) if h[-1][0]=="term"]
    def end(s,h): s.rounds(2).conn(99).pump(); s.late()
    turns.replay(c,hs if c.thorough else c.rnd.sample(hs,min(len(hs),450)),sigs=SIGS,end=end)
def check(c):
    proxied(c); turning(c); crowd(c)
    r=c.rnd; todo=[]
    def tail(s):
        """a server that is still there would meet another client, and the end of the scenario"""
        s.rounds(2).conn(99).req(Req("/a.txt"),c=99).pump(); s.late(); return s
    for h in ("dispatch","file","default","lua"):
        if h=="lua": w=World(c,h,ini_extra="[mod_lua]\nscript_path=etc/h.lua\n"); check_S17.lua(w,*check_S17.SCRIPTS[2][1:])
        else: w=World(c,h,locs=check_S03.LOCS if h=="dispatch" else [],files=check_S03.FILES)
        al=check_S03.alphabet(check_S03.first_etag(c,w)) if h in ("dispatch","file") else [("x",lambda **k:Req("/x",**k)),("p",lambda **k:Req("/y",method="POST",body=b"b"*5000,**k))]
        if h=="file": al=[a for a in al if a[0] not in ("unauth","auth","gif","hello","postgif","post401","chunked0")]
        sc=[]; q=lambda **k: r.choice(al)[1](**k)
        def history(s,n,x0=0):
            """n random steps of random clients"""
            s.open=getattr(s,"open",[]); s.nx=x0 or getattr(s,"nx",0)
            for _ in range(n):
                a=r.random()
                if not s.open or a<0.25: x=s.nx; s.nx+=1; s.conn(x); s.open.append(x); continue
                x=r.choice(s.open)
                if a<0.55: s.req(*[q(ka=r.random()<0.8) for _ in range(r.choice([1,1,2,4]))],c=x)
                elif a<0.62: z=q(); s.plan(x,z).send(r.randrange(1,len(z.bytes)),x); s.open.remove(x)
                elif a<0.70: s.maxsend(r.choice([1,50,3000,60000]),x)
                elif a<0.76: s.window(r.choice([0,1,100,20000]),x)
                elif a<0.80: s.fin(x); s.open.remove(x)
                elif a<0.84: s.rst(x); s.open.remove(x)
                elif a<0.87: s.req(Bad(r.choice(check_S13.MAL)),c=x); s.open.remove(x)
                if r.random()<0.6: s.rounds(r.choice([1,1,2,4]))
                elif r.random()<0.2: s.rounds(30)
            return s
        # with nothing at all, and between any two rounds of each kind of request
        for sig in SIGS: sc.append(tail(Scn(w,"idle%d"%sig).kill(sig)))
        for name,f in al:
            for n in range(0,9 if c.thorough else 5):
                for ka in (True,False):
                    s=Scn(w,"%s-%d-%d"%(name,n,ka)).conn()
                    if r.random()<0.5: s.maxsend(r.choice([100,20000]))
                    s.req(f(ka=ka)).rounds(n).kill(r.choice(SIGS)); sc.append(tail(s))
        # before each system call
        for name,f in al:
            for n in range(1,40 if c.thorough else 16):
                s=Scn(w,"%s-at%d"%(name,n)).conn()
                if n%2: s.rounds(3)
                if r.random()<0.3: s.maxsend(r.choice([100,20000]))
                s.kill_at(n,r.choice(SIGS)).req(f(ka=n%3!=0)).pump()
                for k in range(8): s.conn(1+k).req(q(),c=1+k).pump()
                sc.append(tail(s))
        # whatever connections and unsent responses exist
        for n in range(1500 if c.thorough else 200):
            s=history(Scn(w,"h%d"%n),r.choice([2,5,10,25]))
            if n%2: s.kill(r.choice(SIGS))
            else:
                s.kill_at(r.choice([1,2,3,5,8,13,21,34,60]),r.choice(SIGS)); history(s,r.choice([2,6]),50)
                for k in range(30): s.conn(60+k).req(q(),c=60+k).pump()
            sc.append(tail(s))
        for n in (1,30):
            s=Scn(w,"many%d"%n)
            for x in range(n): s.conn(x).req(q(),c=x)
            sc.append(tail(s.rounds(n%3).kill(15)))
        todo.append((w,sc))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()

def crowd(c):
    """more connections than the events of one turn (1024), when the server is asked to terminate"""
    r=c.rnd; out=[]; w=World(c,"file")
    for n,how in ([(5200,"busy")] if not c.thorough else [(n,how) for n in (1022,1023,1024,1025,1026,2047,2048,2049,6000) for how in ("idle","busy","at")]):
        s=Scn(w,"crowd%d%s"%(n,how))
        for x in range(n): s.conn(x)
        s.pump()
        if how!="idle":
            for x in (r.sample(range(n),20) if n>3000 else range(n)): s.req(Req("/a.txt",ka=r.random()<.7),c=x)
            if how=="at": s.kill_at(r.randrange(1,n),r.choice(SIGS))
            s.rounds(r.choice([0,1,2,3]))
        if how!="at": s.kill(r.choice(SIGS))
        s.rounds(3).conn(8000).req(Req("/a.txt"),c=8000).pump(); s.late(); out.append(s)
    conform(c,w,out); w.close()
