"""the service with encryption: what S03, S05, S13 and S19 say of connections holds
of encrypted ones, for every way the records travel; who breaks the protocol
harms nobody else; nothing is ever said or served in clear"""
from srv import *
import srv, check_S03, check_S13, turns, proxy
A=["keep","drop","bad"]
def worlds(c,**k): return [(h,check_S03.world(c,h,tls="a",**k)) for h in ("dispatch","file")]
def histories(c):
    """every history of the design, the clients being encrypted ones"""
    if c.thorough: turns.design(c,2,2,["keep","drop"],True,True,True,sec=True); turns.live(c,2,1,["keep","drop"],True,True,True,sec=True)
    else: turns.design(c,2,1,["keep","drop"],True,True,True,sec=True); turns.live(c,1,2,["keep","drop"],True,True,True,sec=True)
    hs=turns.histories(c,1,2,A,True,True,False)+turns.histories(c,2,1,A,True,True,False)
    hs=c.rnd.sample(hs,min(len(hs),5000 if c.thorough else 300))+turns.walks(c,3000 if c.thorough else 80,16,4,3,A,True,True,False)
    turns.replay(c,hs,tls="a")
def pieces(c,h,w,al):
    """sequences of requests, the ciphertext cut in pieces of every size, both ways"""
    r=c.rnd; sc=[]; light=[a for a in al if a[0] not in ("big","bigrange","postbig")]
    for ver in (12,13):
        for k in list(range(1,40 if c.thorough else 8))+[16,29,63,64,100,255,511,517,1000,1449,4096,16384,16406,20000]:
            s=Scn(w,"k%d-%d"%(ver,k)); s.opts={0:(k,ver,-1,k%2)}; s.conn(0)
            if k%3==0: s.pump()
            s.req(*[r.choice(light)[1]() for _ in range(3)]); s.pump() if k%2 else 0
            s.req(r.choice(al)[1](),r.choice(light)[1](ka=r.random()<.5)).pump(); sc.append(s)
    for n in range(1500 if c.thorough else 120):
        s=Scn(w,"w%d"%n); k=r.choice([1,1,2,3])
        few=[r.choice([-1,-1,1,3,37,100,333,1500,9000]) for _ in range(k)]
        for x in range(k): s.conn(x); s.maxsend(few[x],x); s.maxrecv(r.choice([0,0,1,4,5,6,50,1000]),x)
        if r.random()<.5: s.pump()
        for _ in range(r.choice([2,5])):
            x=r.randrange(k); q=[r.choice(al if r.random()<.2 and not 0<few[x]<37 else light)[1]() for _ in range(r.choice([1,1,2,3]))]
            if r.random()<.5: s.req(*q,c=x)
            else:
                s.plan(x,*q); m=len(s.stream[x])-s.sent[x]
                while m>0: z=min(m,r.choice([1,7,100,1000,20000])); s.send(z,x); m-=z; s.rounds(r.choice([0,1]))
            z=r.random()
            if z<.3: s.rounds(r.choice([1,2,4]))
            elif z<.5: s.pump()
            elif z<.6: s.window(r.choice([0,1,20,500,16384,40000]),x).rounds(2).window(-1,x)
            elif z<.8 and few[x]<0: s.pump().rekey(x)
        s.pump(); sc.append(s)
    # the client's keys change while the server cannot send: with nothing on its
    # way, that is, for the library gives up when a record is
    for n in range(60 if c.thorough else 12):
        s=Scn(w,"u%d"%n); s.opts={0:(r.choice([0,0,5,100]),13,-1,0)}; s.conn(0).pump().req(r.choice(al)[1]()).pump().window(0,0).rounds(r.choice([0,1,3]))
        for _ in range(r.choice([1,3])): s.rekey(0); s.rounds(r.choice([0,1]))
        if n%2: s.pump()
        s.req(r.choice(light)[1](),c=0).pump() if n%3 else 0
        s.window(-1,0).pump().req(r.choice(light)[1]()).pump(); sc.append(s)
    return sc
def around(c,s,w,al,act):
    """neighbours in every state while act happens, and clients afterwards: all are served"""
    r=c.rnd; light=[a for a in al if a[0] not in ("big","bigrange","postbig")]; q=lambda **k: r.choice(light)[1](**k)
    s.conn(20).pump()                      # has said nothing yet but the greeting
    s.conn(21).req(q(),c=21).pump()        # between two requests
    z=q(); s.conn(22).pump().plan(22,z).send(r.randrange(1,len(z.bytes)),22)   # in the middle of one
    if r.random()<.5: s.pump()
    s.opts[23]=(r.choice([1,7,100]),r.choice([12,13]),-1,0); s.conn(23).rounds(r.choice([1,2,5]))   # greeting
    s.conn(24).pump().maxsend(r.choice([1000,20000]),24).req(dict(al)["big"](),c=24).rounds(r.choice([1,2,3]))   # being answered
    act(s); s.rounds(r.choice([0,1,2,4]))
    order=[20,21,22,23,24]; r.shuffle(order)
    for x in order:
        if x==22: s.send(None,22)
        else: s.req(q(),c=x)
        s.pump() if r.random()<.5 else s.rounds(r.choice([0,1]))
    return s.pump().conn(25).req(q(ka=False),c=25).pump()
def broken(c,h,w,al):
    r=c.rnd; sc=[]; n=0
    def new(**k):
        nonlocal n; n+=1; s=Scn(w,"b%s%d"%(h[0],n)); s.opts={}; return s
    def leave(s,x): r.choice([s.fin,s.rst,s.hangup])(x)
    G=list(check_S13.MAL)+[b"GET / HTTP/1.1\r\n\r\n",b"GET /a.txt HTTP/1.1\r\nConnection: close\r\n\r\n",b"\x16\x03\x01",b"\x16\x03\x01\x40\x01\x01",b"\x15\x03\x03\x00\x02\x02\x28",b"\x17\x03\x03\x00\x05hello",b"\x80\x2e\x01\x00\x02\x00\x15\x00\x00\x00\x10",b"\x16\x03\x03\x00\x04\x01\x00\x00\x00",b"\x14\x03\x03\x00\x01\x01",b"\x16\x03\x01\x00\x00"*20]
    # somebody that does not speak the protocol
    for g in G+[bytes(r.randrange(256) for _ in range(r.choice([5,100,3000]))) for _ in range(200 if c.thorough else 10)]:
        s=new()
        def act(s):
            s.clear(0)
            if r.random()<.3: s.pump()
            if r.random()<.6: s.raw(g,0)
            else:
                p=0
                while p<len(g) and p<400: k=r.choice([1,5,50]); s.raw(g[p:p+k],0); p+=k; s.rounds(r.choice([0,1]))
            s.rounds(r.choice([0,1,3]))
            if r.random()<.7: r.choice([s.fin,s.rst])(0)
        sc.append(around(c,s,w,al,act))
    # somebody that leaves in the middle of the greeting, or of a record
    for k in list(range(1,60))*8 if c.thorough else list(range(1,12))+[r.choice([20,50,100,200,300,500]) for _ in range(25)]:
        s=new(); ver=r.choice([12,13]); cut=r.choice([0,1,2,3,5,8,13,30]) if r.random()<.6 else r.randrange(80)
        def act(s):
            s.opts[0]=(k,ver,-1,r.randrange(2)); s.conn(0); s.wild(0).rounds(cut)
            if r.random()<.4: s.req(r.choice(al)[1](),c=0).rounds(r.choice([0,1,4]))
            leave(s,0)
        sc.append(around(c,s,w,al,act))
    # a byte is changed on the way
    for f in range(0,1500,1 if c.thorough else 29):
        s=new()
        def act(s):
            s.opts[0]=(r.choice([0,0,50]),r.choice([12,13]),f,r.randrange(2)); s.conn(0).wild(0).rounds(r.choice([0,2,20]))
            s.req(*[r.choice(al)[1]() for _ in range(r.choice([1,3]))],c=0).rounds(r.choice([0,2,5])); 
            if r.random()<.5: s.pump()
            if r.random()<.5: leave(s,0)
        sc.append(around(c,s,w,al,act))
    # leaving in an orderly way and less so
    for k in range(120 if c.thorough else 24):
        s=new()
        def act(s):
            s.opts[0]=(r.choice([0,0,50]),r.choice([12,13]),-1,k%2); s.conn(0).pump()
            if r.random()<.6: s.req(r.choice(al)[1](),c=0).rounds(r.choice([0,1,9]))
            leave(s,0); s.pump() if r.random()<.5 else 0
        sc.append(around(c,s,w,al,act))
    return sc
def held(c,h,w,al):
    """nothing is kept of those that have left"""
    r=c.rnd; sc=[]; light=[a for a in al if a[0] not in ("bigrange","postbig")]
    for n in range(60 if c.thorough else 8):
        s=Scn(w,"g%d"%n); s.opts={}; x=0
        def go(y,how,ver,leave):
            if how==0: s.clear(y).raw(b"GET / HTTP/1.1\r\n\r\n",y)
            else:
                s.opts[y]=([0,0,100,0][how],ver,[-1,-1,-1,300][how],y%2); s.conn(y)
                if how!=1: s.wild(y)
                s.rounds(r.choice([0,2,9]))
                if how==1: s.req(r.choice(light)[1](),c=y).pump()
            [s.fin,s.rst,s.hangup,s.fin][leave if how else leave%2](y); s.pump(); s.rst(y); s.pump()
        for y in range(300,303): s.conn(y)
        s.pump()
        for y in range(300,303): s.rst(y)
        s.pump()
        for k,name in enumerate(dict(light)): s.conn(200+k).req(dict(light)[name](),c=200+k).pump().rst(200+k).pump()
        for how in range(4):
            for ver in (12,13):
                for leave in range(3): go(x,how,ver,leave); x+=1
        s.conn(x).pump().rst(x).pump().gauge(); x+=1
        for _ in range(4):
            for _ in range(r.choice([1,6])): go(x,r.randrange(4),r.choice([12,13]),r.randrange(4)); x+=1
            s.conn(x).pump().rst(x).pump().gauge(); x+=1
        sc.append(s)
    return sc
def ending(c,h,w,al):
    """asked to stop whatever its clients are doing"""
    r=c.rnd; sc=[]
    for n in range(300 if c.thorough else 30):
        s=Scn(w,"e%d"%n); s.opts={}
        for x in range(r.choice([1,3])):
            s.opts[x]=(r.choice([0,0,20,200]),r.choice([12,13]),r.choice([-1,-1,-1,r.randrange(700)]),r.randrange(2)); s.conn(x)
            if s.opts[x][2]>=0: s.wild(x)
            s.rounds(r.choice([0,1,5]))
            if r.random()<.6: s.req(*[r.choice(al)[1]() for _ in range(2)],c=x); s.maxsend(r.choice([-1,100,9000]),x); s.rounds(r.choice([0,1,4]))
            if r.random()<.2: r.choice([s.fin,s.rst,s.hangup])(x)
        if r.random()<.5: s.rounds(r.choice([0,1,2,3])).kill()
        else: s.kill_at(r.choice([1,2,3,5,8,13,20])).conn(99).pump().late()
        sc.append(s)
    return sc
def relayed(c):
    """encrypted clients of a proxy location"""
    R=c.rnd; KS=["keep","drop","eof","info"]
    hs=c.gen("ProxyWalk",proxy.cfg(3,3,KS,True,True,next="WNext",inv=False)+"CONSTANT WalkLen = 14\n",simulate=2500 if c.thorough else 150,depth=170)
    sc=[proxy.scenario("r%d"%i,h,R,R.choice([0,0,.3,.6])) for i,h in enumerate(hs)]
    w=proxy.world(c,tls="a"); proxy.conform(c,w,proxy.encrypt(sc)); w.close()
def start(c):
    """without the key it is to use, it does not serve at all (in clear, say)"""
    good={e:open(os.path.join(vbuild.HARN,"tls","a."+e),"rb").read() for e in ("crt","key")}; other=open(os.path.join(vbuild.HARN,"tls","b.key"),"rb").read()
    for name,ch in [("no certificate",{"crt":None}),("no key",{"key":None}),("no certificate in the file",{"crt":b"nonsense\n"}),("no key in the file",{"key":b"nonsense\n"}),("empty certificate",{"crt":b""}),("empty key",{"key":b""}),
                    ("half a certificate",{"crt":good["crt"][:200]}),("half a key",{"key":good["key"][:100]}),("a key of another certificate",{"key":other})]:
        w=World(c,"file",files=[("www/a.txt",b"secret content")],tls="a")
        for e,d in ch.items():
            p=w.dir+"/etc/a."+e; os.unlink(p)
            if d is not None: open(p,"wb").write(d); os.chmod(p,0o644)
        s=Scn(w,"start"); s.s.connect(0); s.s.data(Req("/a.txt").bytes,0); s.s.pump()
        res=w.site.run([s.s],args=w.args,nproc=1)
        served="start" in res and any(e[0]=="S" for e in res["start"].ev)
        early=[e for e in w.site.pre if e[0]=="EARLYRET"]
        if not early or early[0][1]==0: c.violation("start","%s: the server starts all the same%s"%(name,", and answers in clear" if served else ""),{"ini":w.ini})
        c.note("refused_starts",{name:1}); w.close()
def check(c):
    def opt(s,x): return s.opts[x] if x in getattr(s,"opts",{}) else srv.tlsopt(s,x)
    start(c); histories(c); relayed(c)
    todo=[]
    for h,w in worlds(c):
        al=turns.alphabet(c,w,h); al=[(k,al[k]) for k in al]
        w.tlsopt=opt; w.reuse=True
        sc=pieces(c,h,w,al)+broken(c,h,w,al)+held(c,h,w,al)+ending(c,h,w,al); todo.append((w,sc))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
def part(c,*fs):
    def opt(s,x): return s.opts[x] if x in getattr(s,"opts",{}) else srv.tlsopt(s,x)
    todo=[]
    for h,w in worlds(c):
        al=turns.alphabet(c,w,h); al=[(k,al[k]) for k in al]; w.tlsopt=opt; w.reuse=True
        todo.append((w,sum((f(c,h,w,al) for f in fs),[])))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
