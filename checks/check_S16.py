"""Responses of the backends of proxy locations: every response, however it is framed and
whenever its parts arrive, reaches the client that is waiting for it, whole and unchanged; a
backend that cannot be reached or breaks off never leaves its client waiting nor makes it
believe that it has got everything."""
import proxy
from proxy import PScn, request, response, chunked
from check_S15 import rq, tag

HS=[(),(("Server","b"),("Set-Cookie","a=1"),("Set-Cookie","b=2")),(("X-Empty",""),("X-Fold","one\r\n two")),tuple(("X-%d"%i,"v"*(i*7%90)) for i in range(40)),(("X-Long","w"*9000),)]
BODIES=[b"",b"x",b"0\r\n\r\nHTTP/1.1 200 OK\r\n\r\n",bytes(range(256))*4]
STATUSES=[200,201,202,203,204,205,206,300,301,302,303,304,305,307,400,401,402,403,404,405,406,407,408,409,410,411,412,413,414,415,416,417,418,429,451,500,501,502,503,504,505,599,299,399,999]

def variants(c):
    """(bytes of the response, closes) of many kinds"""
    R=c.rnd; out=[]
    for st in STATUSES:
        nb=st in (204,304)
        out.append((response(st,body=b"" if nb else b"status %d"%st,framing=None if nb else "len"),False))
    out.append((response(304,h=(("Content-Length","1234"),),framing=None),False))
    out.append((response(204,h=(("X","y"),),framing=None,ka=False),False))
    for b in BODIES+[bytes(R.randrange(256) for _ in range(70000))]:
        for f in ("len","chunked","eof"):
            for v in ("1.1","1.0"):
                h=HS[len(out)%len(HS)]
                kw=dict(sizes=R.choice([(3,),(1,200),(16,1)]) if len(b)<2000 else (R.choice([100,1000,33000]),),ext=R.random()<.4,trailers=(("T","v"),) if R.random()<.4 else ()) if f=="chunked" else {}
                out.append((response(200,v=v,h=h,body=b,framing=f if f!="eof" else None,ka=len(out)%3>0,reason=R.choice(["OK","","Very well done",None]),**kw),f=="eof"))
    out.append((response(100,framing=None)+response(200,body=b"continued"),False))
    out.append((response(103,h=(("Link","x"),),framing=None)*2+response(404,body=b"hinted",framing="chunked"),False))
    return out
def whole(c):
    """every kind of response to every kind of client, and another one after it"""
    out=[]; n=0; R=c.rnd
    for d,eof in variants(c):
        for m,cv in (("GET","1.1"),("POST","1.0")):
            n+=1; s=PScn("w%d"%n).conn()
            if n%3==0: s.maxsend(R.choice([1,10,1000] if len(d)<3000 else [1000]))
            s.send(rq(n,"/px/r",method=m,v=cv,body=b"b" if m=="POST" else b"",framing="len" if m=="POST" else None,ka=n%5>0)).pump()
            s.ans(tag(n),d).pump()
            if eof: s.bfin(tag(n)).pump()
            n+=1; s.send(rq(n,"/px/r2")).pump().ans(tag(n),response(200,body=b"second")).pump()
            out.append(s)
    for k,(st,h) in enumerate([(200,(("Content-Length","10"),)),(200,(("Transfer-Encoding","chunked"),)),(404,()),(304,(("Content-Length","7"),))]):
        n+=2; s=PScn("head%d"%k).conn().send(rq(n,"/px/r",method="HEAD")).pump().ans(tag(n),response(st,h=h,framing=None)).pump()
        s.send(rq(n+1,"/px/r2")).pump().ans(tag(n+1),response(200,body=b"second")).pump(); out.append(s)
    return out
def cutup(c):
    """responses that arrive in pieces"""
    out=[]; n=5000; R=c.rnd; vs=[v for v in variants(c) if len(v[0])<700]
    few=[(response(200,h=HS[2],body=b"hello",framing="len"),False),(response(200,body=b"hello world",framing="chunked",sizes=(4,2),ext=True,trailers=(("T","v"),)),False),
         (response(200,body=b"hello",framing=None),True),(response(100,framing=None)+response(206,body=b"part"),False),(response(204,framing=None),False)]
    for i,(d,eof) in enumerate(few):
        n+=1; s=PScn("byte%d"%n).conn().send(rq(n,"/px/r")).pump()
        for k in range(len(d)): s.ans(tag(n),d[k:k+1]).pump()
        if eof: s.bfin(tag(n)).pump()
        out.append(s)
        for k in range(1,len(d),1 if c.thorough else 2):
            n+=1; s=PScn("cut%d_%d"%(i,k)).conn().send(rq(n,"/px/r")).pump().ans(tag(n),d[:k]).pump().ans(tag(n),d[k:])
            if eof: s.bfin(tag(n))
            out.append(s.pump())
        for k in (1,2,5,30):
            n+=1; s=PScn("rd%d_%d"%(i,k)).conn().send(rq(n,"/px/r")).pump().brecv(tag(n),k).ans(tag(n),d)
            if eof: s.bfin(tag(n))
            out.append(s.pump())
    for _ in range(80 if not c.thorough else 2000):
        d,eof=R.choice(vs); n+=1; s=PScn("rc%d"%n).conn()
        if R.random()<.3: s.maxsend(R.choice([1,3,50]))
        s.send(rq(n,"/px/r")).pump(); p=0; cuts=sorted(R.sample(range(1,len(d)),R.choice([1,2,3,6])))
        for x in cuts+[len(d)]:
            s.ans(tag(n),d[p:x]); p=x
            if R.random()<.8: s.pump()
            elif R.random()<.5: s.rounds(R.choice([1,2,3]))
        if eof: s.bfin(tag(n))
        s.pump(); n+=1; s.send(rq(n,"/py/r2")).pump().ans(tag(n),response(200,body=b"second")).pump(); out.append(s)
    return out
def large(c):
    """bodies beyond the buffers, clients that take them slowly"""
    out=[]; n=9000; sizes=[300000,1500000] if not c.thorough else [300000,1048575,1048576,1048577,1500000,4000000,9000000]
    for z in sizes:
        b=bytes((i*7+i//251)&255 for i in range(1000))*(z//1000)+b"z"*(z%1000)
        for f in ("len","chunked",None):
            d=response(200,body=b,framing=f,**(dict(sizes=(30000,)) if f=="chunked" else {})); 
            for way in range(4):
                n+=1; s=PScn("big%d"%n).conn()
                if way==1: s.window(0)
                if way==2: s.window(100000)
                if way==3: s.maxsend(50000)
                s.send(rq(n,"/px/b")).pump()
                p=0; step=len(d)//(3 if way else 1)+1
                while p<len(d): s.ans(tag(n),d[p:p+step]); p+=step; s.pump()
                if f is None: s.bfin(tag(n)).pump()
                if way in (1,2): s.window(-1).pump()
                n+=1; s.send(rq(n,"/px/s")).pump().ans(tag(n),response(200,body=b"second")).pump()
                out.append(s)
    # all at once
    for f in ("len","chunked"):
        n+=1; b=bytes(c.rnd.randrange(256) for _ in range(1000))*5500; d=response(200,body=b,framing=f,**(dict(sizes=(30000,)) if f=="chunked" else {}))
        out.append(PScn("all%d"%n).conn().send(rq(n,"/px/b")).pump().ans(tag(n),d).pump())
    return out
def broken(c):
    """backends that cannot be reached, or that break off at any point"""
    out=[]; n=20000; R=c.rnd
    for ka in (True,False):
        for v in ("1.1","1.0"):
            n+=2; out.append(PScn("ref%d"%n).refuse(1).conn().send(rq(n,"/px/r",v=v,ka=ka)).pump().refuse(0).send(rq(n+1,"/px/r2")).pump().ans(tag(n+1),response(200,body=b"now")).pump())
            n+=2; out.append(PScn("refb%d"%n).refuse(1).conn().send(rq(n,"/px/r",method="POST",body=b"body",framing="chunked",v=v,ka=ka)).pump())
    ds=[response(200,h=HS[1],body=b"hello",framing="len"),response(200,body=b"hello world",framing="chunked",sizes=(4,2)),response(200,body=b"hello",framing=None),response(100,framing=None)+response(200,body=b"late"),response(204,framing=None)]
    for i,d in enumerate(ds):
        for k in range(0,len(d)+1,1 if c.thorough else 2):
            for how in ("bfin","brst"):
                n+=2; s=PScn("%s%d_%d"%(how,i,k)).conn().send(rq(n,"/px/r")).pump()
                if k: s.ans(tag(n),d[:k])
                if k%4<2: s.pump()
                getattr(s,how)(tag(n)); s.pump()
                s.send(rq(n+1,"/px/r2")).pump().ans(tag(n+1),response(200,body=b"again")).pump(); out.append(s)
    # a backend connection that is left open, or is closed, between two requests
    for k in range(6):
        n+=3; s=PScn("idle%d"%k).conn().send(rq(n,"/px/1")).pump().ans(tag(n),response(200,body=b"one")).pump()
        if k==0: s.bfin(tag(n)).pump()
        if k==1: s.brst(tag(n)).pump()
        if k==2: s.ans(tag(n),b"",b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nevil").pump()
        if k==3: s.bfin(tag(n))
        if k==4: s.brst(tag(n))
        if k==5: s.rounds(1)
        s.send(rq(n+1,"/px/2")).pump().ans(tag(n+1),response(200,body=b"two")).pump(); out.append(s)
    # more than the response
    for k,x in enumerate([b"x",b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nevil",b"\r\n"]):
        for f in ("len","chunked"):
            n+=2; out.append(PScn("exc%d%s"%(k,f)).conn().send(rq(n,"/px/1")).pump().ans(tag(n),response(200,body=b"one",framing=f),x).pump().send(rq(n+1,"/px/2")).pump().ans(tag(n+1),response(200,body=b"two")).pump())
    # no response at all
    for k,x in enumerate([b"hello\r\n\r\n",b"\x00\xff\x00\xff\r\n",b"HTTP/1.1 abc OK\r\n\r\n",b"HTTP/9 200 OK\r\n\r\n",b"GET / HTTP/1.1\r\n\r\n",b"HTTP/1.1 200 OK\r\nContent-Length: 12x\r\n\r\nab"]):
        for ka in (True,False):
            n+=2; out.append(PScn("junk%d%d"%(k,ka)).conn().send(rq(n,"/px/1",ka=ka)).pump().ans(tag(n),b"",x).pump())
    for k,(g,x) in enumerate([(b"",b"zz\r\n"),(b"5\r\nhello",b"!\r\n"),(b"",b"fffffffffffffffffffff\r\n"),(b"1\r\na\r\n",b"-1\r\n")]):
        for ka in (True,False):
            n+=2; out.append(PScn("chunk%d%d"%(k,ka)).conn().send(rq(n,"/px/1",ka=ka)).pump().ans(tag(n),b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"+g,x).pump())
    return out
def leaving(c):
    """clients that leave, at any point of the exchange"""
    out=[]; n=30000
    d=response(200,body=b"hello world, this is it"*100,framing="len")
    for how in ("fin","rst"):
        for k in range(0,8):
            for z in (0,1):
                n+=2; s=PScn("%s%d_%d"%(how,k,z)).conn()
                if z: s.window(0)
                r=rq(n,"/px/1",method="POST",body=b"some body",framing="len")
                s.send(r,cuts=[len(r)//2] if k==0 else ())
                if k<2: s.pump(); getattr(s,how)(); s.pump()
                else:
                    s.pump()
                    if k==2: getattr(s,how)(); s.pump()
                    s.ans(tag(n),d[:40]).pump() if k<6 else s.ans(tag(n),d).pump()
                    if k==3: getattr(s,how)(); s.pump()
                    if k==4: getattr(s,how)()
                    if k<6: s.ans(tag(n),d[40:]).pump()
                    if k==5: getattr(s,how)(); s.pump()
                    if k==6: s.bfin(tag(n)); getattr(s,how)(); s.pump()
                    if k==7: s.brst(tag(n)); getattr(s,how)(); s.pump()
                # the server goes on
                s.conn(1).send(rq(n+1,"/px/2"),1).pump().ans(tag(n+1),response(200,body=b"two")).pump()
                out.append(s)
    return out
def churn(c):
    """one client after the other, leaving at any point; meant for memory that is reused at once"""
    out=[]; n=60000; R=c.rnd; d=response(200,body=b"hello world, this is it"*100,framing="len"); ways=[(k,h) for k in range(9) for h in ("fin","rst")]
    pairs=[(a,b) for a in ways for b in ways]
    for a,b in pairs if c.thorough else R.sample(pairs,110):
        s=PScn("churn%d"%n)
        for j,(k,how) in enumerate((a,b)):
            n+=1; s.conn(j); leave=lambda: getattr(s,how)(j)
            p=R.choice(["/px/1","/py/1"])
            if k==8: s.pump(); leave(); s.pump(); continue      # without a request
            s.send(rq(n,p,method="POST",body=b"some body",framing="len"),j,cuts=[40] if k==0 else ()).pump()
            if k>=6: s.ans(tag(n),d).pump()                      # answered, the backend connection is kept or not
            elif k>=3: s.ans(tag(n),d[:70]).pump()
            if k in (1,4,7): s.bfin(tag(n))
            if k==5: s.brst(tag(n))
            if R.random()<.5: leave(); s.pump()
            else: s.pump(); leave(); s.pump()
        s.conn(2)
        for p in ("/px/2","/py/3","/px/4"):
            n+=1; s.send(rq(n,p),2).pump().ans(tag(n),response(200,body=b"two")).pump()
        out.append(s)
    return out
def mixed(c):
    """several clients at once, backends that answer in any order and break off"""
    out=[]; R=c.rnd
    for n in range(60 if not c.thorough else 1500):
        s=PScn("mix%d"%n); C=R.choice([2,3,4]); i=40000; st={}
        for k in range(C): s.conn(k); st[k]=None
        s.pump(); vs=[(response(200,h=HS[1],body=b"answer body"*R.choice([1,50]),framing=f),f is None) for f in ("len","chunked",None)]+[(response(404,body=b"no",framing="chunked",ka=False),False),(response(204,framing=None),False)]
        dead=set()
        for _ in range(R.choice([10,25])):
            k=R.randrange(C)
            if k in dead: continue
            x=R.random()
            if st[k] is None:
                i+=1; s.send(rq(i,R.choice(["/px/a","/py/b","/q/r","/px/c"]),method=R.choice(["GET","POST"]) ,body=b"",framing=None),k); d,e=R.choice(vs); st[k]=[i,d,e,False]
                s.pump()
            elif x<.85:
                j,d,e,begun=st[k]; z=len(d) if R.random()<.5 else R.randrange(1,len(d)+1)
                s.ans(tag(j),d[:z])
                if z==len(d):
                    if e: s.bfin(tag(j))
                    st[k]=None; s.pump()
                    if e or b"Connection: keep-alive" not in d: dead.add(k)
                else: st[k]=[j,d[z:],e,True]; (s.pump if R.random()<.7 else (lambda:s.rounds(1)))()
            elif x<.93: getattr(s,R.choice(["bfin","brst"]))(tag(st[k][0])); s.pump(); dead.add(k)
            else: getattr(s,R.choice(["fin","rst"]))(k); s.pump(); dead.add(k)
        s.pump(); out.append(s)
    return out

def check(c):
    ALL=["keep","drop","eof","info"]
    proxy.design(c,1,1,ALL,True,True); proxy.design(c,2,1,["keep"],False,False,few=True)
    hs=proxy.histories(c,"g",1,1,ALL,True,True,lazy=.3)
    if c.thorough:
        proxy.design(c,2,2,["keep","eof"],True,False,few=True)
        hs+=proxy.histories(c,"h",1,2,["keep","eof"],True,True,lazy=.3)+proxy.histories(c,"r",2,3,ALL,True,False,lazy=.5,walks=4000,length=25)
    w=proxy.world(c)
    c.assume+=["the backends are simulated connections that behave as TCP does; connecting to one either works at once or is refused"]
    proxy.conform(c,w,whole(c)+cutup(c)+large(c)+broken(c)+leaving(c)+mixed(c)+hs)
    w.reuse=True
    proxy.conform(c,w,churn(c)+mixed(c)+leaving(c))
    w.close()
