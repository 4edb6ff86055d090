from srv import *
import srv, check_S03, proxy, turns
from check_S15 import rq, tag
from check_S17 import diag
def proxied(c):
    """clients of a proxy location, and its backends, come and go"""
    R=c.rnd; KS=["keep","drop","eof","info"]
    def part(n,length): return c.gen("ProxyWalk",proxy.cfg(3,3,KS,True,True,next="WNext",inv=False)+"CONSTANT WalkLen = %d\n"%length,simulate=n,depth=12*length)
    hs=part(600 if c.thorough else 90,12)+part(500 if c.thorough else 60,25)
    one=c.gen("ProxyGen",proxy.cfg(1,2,["keep","eof"] if c.thorough else ["keep"],True,False,next="GNext",inv=False))
    hs+=R.sample(one,min(len(one),2500 if c.thorough else 250)); R.shuffle(hs)
    def leave(s,cs):
        """everybody that is still there leaves"""
        for x in cs:
            if R.random()<.6: s.rst(x)
            else: s.window(-1,x).fin(x)
        s.refuse(0).open().pump()
        for x in cs: s.rst(x)
        # what belongs to a connection may be released when there is something to do again
        s.pump(); s.seq=getattr(s,"seq",409)+1; x=s.seq; return s.conn(x).pump().rst(x).pump().gauge()
    def warm(s):
        """everything there is, once; as many at once as there will be"""
        for x in range(400,404): s.conn(x)
        for j,kw in enumerate([dict(),dict(framing="chunked"),dict(framing=None,ka=False)]):
            t=9000+j; s.send(rq(t,"/px/w" if j<2 else "/py/w",method="POST",body=b"w"*50,framing="len" if j else "chunked"),400+j).pump()
            s.ans(tag(t),proxy.response(200,body=b"v"*50,**dict(dict(framing="len"),**kw))).pump()
            if not kw.get("ka",True): s.bfin(tag(t)).pump()
        s.refuse(1).send(rq(9009,"/px/n"),403).pump()
        return leave(s,range(400,404))
    out=[]; size=3
    for i in range(0,len(hs),size):
        s=warm(proxy.PScn("p%d"%i))
        for j,h in enumerate(hs[i:i+size]):
            proxy.scenario(None,h,R,R.choice([0,0,.3,.6]),s=s,base=10*j)
            leave(s,[10*j+e[1] for e in h if e[0]=="conn"])
        out.append(s)
    # the same again and again
    for i,h in enumerate(R.sample(hs,min(len(hs),120 if c.thorough else 16))):
        s=warm(proxy.PScn("again%d"%i)); z=R.choice([0,.5])
        for j in range(6):
            proxy.scenario(None,h,R,z,s=s,base=10*j); leave(s,[10*j+e[1] for e in h if e[0]=="conn"])
        out.append(s)
    w=proxy.world(c); w.reuse=True
    proxy.conform(c,w,out); w.close()
def coming(c):
    """clients of the server come, ask and leave in every order"""
    A=["keep","drop","bad"]; R=c.rnd
    hs=turns.histories(c,1,2,A,True,True,False)+turns.histories(c,2,1,A,True,True,False)+turns.walks(c,3000 if c.thorough else 100,14,4,3,A,True,True,False)
    if not c.thorough: hs=R.sample(hs,min(len(hs),420))
    ws=[(h,check_S03.world(c,h)) for h in ("dispatch","file")]; todo=[]
    for h,w in ws:
        al=turns.alphabet(c,w,h); w.reuse=True; sc=[]; mine=hs[::2] if h=="file" else hs[1::2]
        def leave(s,xs):
            for x in xs: s.rst(x)
            s.pump().conn(s.seq).pump().rst(s.seq).pump().gauge(); s.seq+=1; return s
        for i in range(0,len(mine),4):
            s=Scn(w,"c%d"%i); s.seq=300
            for k,n in enumerate(al): s.conn(100+k).req(al[n](),c=100+k)
            s.pump(); leave(s,range(100,100+len(al)))
            for j,g in enumerate(mine[i:i+4]+mine[i:i+1]):
                turns.scenario(w,None,g,R,al,R.choice([0,0,.3,.7]),s=s,base=10*j); leave(s,[10*j+e[1] for e in g if e[0]=="conn"])
            sc.append(s)
        todo.append((w,sc))
    srv.conform_many(c,todo)
    for _,w in ws: w.close()
def check(c):
    proxied(c); coming(c)
    r=c.rnd; todo=[]
    L=check_S03.LOCS+[dict(pat="/diag",h="diag")]
    for h in ("dispatch","file"):
        w=World(c,h,locs=L if h=="dispatch" else [],files=check_S03.FILES,index="index.html" if h=="dispatch" else None,use_template=True,eff_index=None if h=="dispatch" else ""); w.abstract=(diag,)
        al=dict(check_S03.alphabet(check_S03.first_etag(c,w)))
        if h=="file": al={k:v for k,v in al.items() if k not in ("unauth","auth","gif","hello","postgif","post401","chunked0")}
        names=list(al); sc=[]
        def warm(s):
            """every kind of request once, so that whatever is set up on first use is"""
            x=900
            for k in names: s.conn(x-900+100).req(al[k](ka=False),c=x-900+100).pump(); x+=1
            s.conn(98).req(Req("/a.txt"),c=98).pump().fin(98).pump().conn(99).maxsend(100,99).req(al["big"](),c=99).rounds(2).rst(99).pump()
            s.gauge()
        def bad(): return Bad(r.choice([b"\x00\x01\x02",b"GARBAGE\r\n\r\n",b"GET / HTTP/x.y\r\n\r\n",b"POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\n",b"GET /\x01 HTTP/1.1\r\n\r\n",b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"]))
        for i in range(160 if c.thorough else 48):
            s=Scn(w,"g%d"%i); warm(s)
            used=0; live=[]
            for _ in range(r.choice([3,8,20])):
                a=r.random()
                if a<0.35 or not live: s.conn(used); live.append(used); s.rounds(r.choice([0,1,1])) if r.random()<0.7 else None; used+=1; continue
                x=r.choice(live)
                if a<0.7:
                    if r.random()<0.25: s.maxsend(r.choice([1,50,1000,100000]),x)
                    if r.random()<0.15: s.window(r.choice([0,10,500]),x)
                    s.req(*[al[r.choice(names)](ka=r.random()<0.8) for _ in range(r.choice([1,1,2,4]))],c=x)
                elif a<0.75: q=al[r.choice(names)](); s.plan(x,q).send(r.randrange(1,max(2,len(q.bytes))),x); live.remove(x); (s.fin if r.random()<0.5 else s.rst)(x)
                elif a<0.8: s.req(bad(),c=x); live.remove(x); s.window(-1,x)
                elif a<0.9: s.fin(x); live.remove(x)
                else: s.rst(x); live.remove(x)
                if r.random()<0.6: s.rounds(r.choice([1,1,2,3]))
            s.pump()
            for x in live: (s.fin if r.random()<0.6 else s.rst)(x)
            s.pump(); 
            for x in range(used): s.rst(x)
            s.pump().gauge()
            if h=="dispatch": s.conn(97).req(Req("/diag",ka=False),c=97).pump().gauge()
            sc.append(s)
        # the same history again and again: nothing accumulates
        for i in range(40 if c.thorough else 14):
            s=Scn(w,"rep%d"%i); warm(s); k=names[i%len(names)]; how=r.choice(["fin","rst","close","cut","midsend"])
            for x in range(6):
                s.conn(x); q=al[k](ka=how!="close")
                if how=="cut": s.plan(x,q).send(len(q.bytes)//2,x).pump().rst(x).pump()
                elif how=="midsend": s.maxsend(r.choice([10,100]),x).req(q,c=x).rounds(2).rst(x).pump()
                else:
                    s.req(q,c=x).pump()
                    if how!="close": getattr(s,how)(x).pump()
                s.gauge()
            sc.append(s)
        # many at once, then gone
        for i in range(10 if c.thorough else 4):
            s=Scn(w,"many%d"%i); warm(s)
            for x in range(90): s.conn(x)
            s.pump()
            for x in range(90): s.req(al[r.choice(names)](ka=x%3!=0),c=x) if r.random()<0.6 else None
            (s.pump() if i%2 else s.rounds(2))
            if h=="dispatch": s.conn(95).req(Req("/diag"),c=95).pump()
            for x in range(90): (s.fin if r.random()<0.5 else s.rst)(x)
            if h=="dispatch": s.pump().req(Req("/diag",ka=False),c=95)
            s.pump().gauge(); sc.append(s)
        todo.append((w,sc))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
