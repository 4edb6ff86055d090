"""hostile clients next to well-behaved ones"""
from srv import *
import srv, check_S03, turns
MAL=[b"\x00\x01\x02\x03",b"GARBAGE\r\n\r\n",b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03",b"GET / HTTP/x.y\r\n\r\n",b"GET / HTTP/1.\r\n\r\n",b"GET / HTTPS/1.1\r\n\r\n",b"GET / FTP/1.1\r\n\r\n",
 b"POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\n",b"POST / HTTP/1.1\r\nContent-Length: 12x\r\n\r\n",b"POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\n",b"POST / HTTP/1.1\r\nContent-Length: 4294967296\r\n\r\n"+b"x"*5,
 b"GET /\x01 HTTP/1.1\r\n\r\n",b"GET /\x7f HTTP/1.1\r\n\r\n",b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nfffffffffffffffffffff\r\n",b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n-1\r\n",b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n\x80\r\n",
 b"GET / HTTP/1.1\r\n: x\r\n\r\n",b"GET / HTTP/1.1\r\n\x00: x\r\n\r\n",b"get / http/1.1\r\n\r\n",b"GE\xd4 / HTTP/1.1\r\n\r\n",b"FOO / HTTP/1.1\r\n\r\n",b"GETGETGET / HTTP/1.1\r\n\r\n",b" GET / HTTP/1.1\r\n\r\n",b"HTTP/1.1 200 OK\r\n\r\n",
 b"GET / HTTP/1234567.1\r\n\r\n",b"GET / HTTP/0.9\r\n\r\n",b"A"*5000,b"\xff"*300,b"{"*70000]
ODD=[b"GET / HTTP/1.1\r\nHe ader: x\r\n\r\n",b"GET / HTTP/1.1\r\nName\r\n\r\n",b"GET / HTTP/1.1\r\nA:\r\n b\r\n\r\n",b"GET / HTTP/1.1\r\nA: b\n\n"]   # tolerated or not
def mutate(r,d,pool):
    d=bytearray(d)
    for _ in range(r.choice([1,1,2,3,8])):
        k=r.randrange(10); n=len(d)
        i=r.randrange(n+1) if n else 0
        if k==0 and n: d[min(i,n-1)]=r.randrange(256)
        elif k==1 and n: d[min(i,n-1)]^=1<<r.randrange(8)
        elif k==2: d[i:i]=bytes([r.randrange(256)])
        elif k==3: del d[i:i+r.choice([1,1,2,5,30])]
        elif k==4: j=r.randrange(n+1) if n else 0; a,b=min(i,j),max(i,j); d[i:i]=d[a:b][:3000]
        elif k==5: d[i:i]=r.choice([b"\r\n",b"\n",b"\r",b" ",b":",b"\x00",b"%",b"%00",b"%2e%2e/",b"/",b"?",b"#",b"\r\n\r\n",b"\t",b",",b";"])
        elif k==6: d[i:i]=r.choice([b"A",b"\x80",b"/",b"%41",b"../",b" ",b"\r\n",b"a:",b"0"])*r.choice([10,127,128,255,256,1023,1024,1025,3000,9000])
        elif k==7: o=r.choice(pool); j=r.randrange(len(o)); d[i:]=o[j:]
        elif k==8: d[i:i]=r.choice([b"Content-Length: 5\r\n",b"Transfer-Encoding: chunked\r\n",b"Connection: Upgrade\r\nUpgrade: x\r\n",b"Range: bytes=0-\r\n",b"Range: bytes=-,,1-\r\n",b"Authorization: Basic ====\r\n",b"Authorization: Basic "+b"QQ"*3000+b"\r\n",b"If-None-Match: \"\r\n",b"Content-Length: 18446744073709551615\r\n",b"Connection: keep-alive, close\r\n",b"Expect: 100-continue\r\n"])
        elif n: d[i:]=b""
    return bytes(d)
def check(c):
    crowd(c); crowded(c)
    A=["keep","drop","bad"]
    if c.thorough: turns.design(c,2,2,A,True,True,False)
    else: turns.design(c,2,1,A,True,True,False)
    hs=turns.histories(c,1,2,A,True,True,False)+turns.histories(c,2,1,A,True,True,False)+turns.walks(c,4000 if c.thorough else 150,14,4,3,A,True,True,False)
    turns.replay(c,hs if c.thorough else c.rnd.sample(hs,min(len(hs),600)))
    r=c.rnd; todo=[]; L=check_S03.LOCS+[dict(pat="/base/",h="file",base="www/d"),dict(kind="suffix",pat=".dflt",h="default")]
    for h in ("dispatch","file","default"):
        k=dict(handler=h,files=check_S03.FILES)
        if h=="dispatch": k.update(locs=L,index="index.html a.txt")
        w=World(c,**k); al=check_S03.alphabet(check_S03.first_etag(c,w)) if h!="default" else [("x",lambda **k:Req("/x",**k)),("p",lambda **k:Req("/y",method="POST",body=b"body",**k))]
        if h=="file": al=[a for a in al if a[0] not in ("unauth","auth","gif","hello","postgif","post401","chunked0")]
        sc=[]; q=lambda **k: r.choice(al)[1](**k)
        few=1 if h=="dispatch" or c.thorough else 0.3
        W=10; A=0       # the well-behaved connection and the attacker
        def around(s,act):
            """a neighbour has a request in each place around act; later a new client comes"""
            p=r.randrange(4)
            s.conn(W)
            if p==0: s.req(q(),c=W)
            if p==1: s.maxsend(r.choice([1000,20000,100000]),W).req(q(),q(),c=W).rounds(r.choice([1,2,3]))
            if p==2: z=q(); s.plan(W,z).send(r.randrange(1,len(z.bytes)),W)
            act(s)
            if p==2: s.send(None,W)
            s.pump().req(q(),c=W).pump().conn(11).req(q(ka=False),c=11).pump()
            return s
        end=lambda s,x: r.choice([lambda: s,lambda: s.fin(x),lambda: s.rst(x)])()
        # malformed
        for i,m in enumerate(MAL):
            for j in range(6 if c.thorough else 2):
                def act(s):
                    s.conn(A)
                    if j%2==0: s.req(*([q() for _ in range(r.choice([0,0,1,2]))]+[Bad(m)]),c=A)
                    else:
                        s.plan(A,Bad(m,at=1)); p=0
                        while p<len(m): k=r.choice([1,1,2,5]) if len(m)<200 else 997; s.send(k,A); p+=k; s.rounds(1) if r.random()<0.3 else 0
                    s.rounds(r.choice([0,1,2]))
                if r.random()<few or j==0: sc.append(around(Scn(w,"mal%d-%d"%(i,j)),act))
        # a request cut at every point, the client gone
        for n,(name,f) in enumerate(al):
            z=f(); N=len(z.bytes); pts=list(range(0,N)) if N<400 and c.thorough else sorted(set([0,1,2,N-1,N-2,N-3]+[r.randrange(N) for _ in range(int(14*few)+1)]))
            for p in pts:
                if p<0: continue
                def act(s):
                    s.conn(A).plan(A,f()); s.send(p,A) if p else 0
                    s.rounds(r.choice([0,1,2])); r.choice([s.fin,s.rst])(A); s.rounds(r.choice([0,1]))
                sc.append(around(Scn(w,"cut-%s-%d"%(name,p)),act))
        # gone in the middle of the answers
        for n,(name,f) in enumerate(al):
            for p in range(8 if c.thorough else max(1,int(3*few))):
                def act(s):
                    s.conn(A).maxsend(r.choice([1,7,100,5000,70000]),A).req(f(),*[q() for _ in range(r.choice([0,1,3]))],c=A)
                    if r.random()<0.4: s.window(r.choice([0,1,200,30000]),A)
                    s.rounds(r.choice([1,1,2,3,5])); r.choice([s.fin,s.rst])(A)
                    if r.random()<0.3: s.rounds(1).req(q(),c=W)
                sc.append(around(Scn(w,"mid-%s-%d"%(name,p)),act))
        # all at once
        for n in range(60 if c.thorough else int(16*few)+1):
            def act(s):
                xs=list(range(20,20+r.choice([3,10,40])))
                for x in xs:
                    s.conn(x)
                    if r.random()<0.3: s.rst(x)
                s.rounds(1) if r.random()<0.5 else 0
                for x in xs:
                    a=r.random()
                    if a<0.5: s.req(*[q(ka=r.random()<0.5) for _ in range(r.choice([1,2]))],c=x)
                    elif a<0.6: s.req(Bad(r.choice(MAL)),c=x)
                    if a>0.4: r.choice([s.fin,s.rst])(x)
                    if r.random()<0.1: s.rounds(1)
            sc.append(around(Scn(w,"storm%d"%n),act))
        # sizes around every limit
        sizes=[1,100,126,127,128,129,255,256,257,1000,1022,1023,1024,1025,1026,2000,4095,4096,4097,8191,8192,8193,20000,65535,65536,70000]
        def big(n,k):
            u={"url":"/"+"a"*n,"slash":"/"*n,"dots":"/"+"./"*(n//2),"up":"/"+"../"*(n//3),"esc":"/"+"%41"*(n//3),"query":"/a.txt?"+"q"*n,"ext":"/a."+"x"*n,"dir":"/d/"+"./"*(n//2),"gif":"/gif"+"a"*n,"base":"/base/"+"b"*n,"priv":"/priv/"+"p"*n,"dflt":"/"+"a"*n+".dflt"}.get(k,"/a.txt"); kw={}
            if k=="range": kw=dict(rg="bytes="+"1"*n)
            if k=="etag": kw=dict(inm="x"*n)
            if k=="auth": u="/priv/s.txt"; kw=dict(auth=("u"*n,"p"))
            if k=="authp": u="/priv/s.txt"; kw=dict(auth=("u","p"*n))
            if k=="authb": u="/priv/s.txt"; kw=dict(headers=[("Authorization","B"*n)]); 
            if k=="hname": kw=dict(headers=[("X"*n,"v")])
            if k=="hval": kw=dict(headers=[("X-Y","v"*n)])
            if k=="cc": kw=dict(headers=[("Cache-Control","v"*n)])
            if k=="hcount": kw=dict(headers=[("X%d"%i,"v") for i in range(n//8)])
            if k=="body": kw=dict(method="POST",body=b"B"*n)
            if k=="chunk": kw=dict(method="POST",body=b"C"*n,chunked=True)
            z=Req(u,**kw)
            if k=="authb": z.rec["au"]={"k":"bad","u":"","p":""}
            return z
        LONG=("url","slash","dots","up","esc","query","ext","dir","gif","base","priv","dflt")
        kinds=["url","slash","dots","up","esc","query","ext","dir","range","etag","hname","hval","cc","hcount","body","chunk"]+(["gif","base","priv","auth","authp","authb","dflt"] if h=="dispatch" else [])
        for k in kinds:
            for n in sizes:
                if not c.thorough and (r.random()>0.7*few or (n>30000 and k in ("esc","slash","up","dots","dir","url","base","priv","gif","ext") and r.random()<0.5)): continue
                s=Scn(w,"big-%s-%d"%(k,n)); s.conn(A).conn(W)
                # long URLs are only run next to the exact neighbour (S10 decides what they denote)
                if n>1100 and k in LONG: s.wild(A).raw(big(n,k).bytes,A)
                else: s.req(big(n,k),c=A)
                if r.random()<0.2: s.maxrecv(r.choice([1000,5000]),A)
                s.req(q(),c=W).pump()
                if not (n>1100 and k in LONG): s.req(q(ka=False),c=A).pump()
                s.req(q(),c=W).pump(); sc.append(s)
        # more than the server should take from one client before it turns to another
        for n in range(2):
            s=Scn(w,"flood%d"%n).conn(A).conn(W); z=r.choice([5,6])*1000000+r.randrange(200000)
            s.req(Req("/a.txt",method="POST",body=bytes(r.randrange(256) for _ in range(1000))*(z//1000),chunked=n%2==1),q(),c=A).req(q(),c=W)
            if n%2: s.rounds(2).req(q(),c=W)
            s.pump().req(q(),c=A).req(q(),c=W).pump().gauge(); sc.append(s)
        # anything at all
        pool=ODD+[f().bytes for _,f in al if len(f().bytes)<3000]+[big(50,k).bytes for k in kinds]
        for n in range(6000 if c.thorough else int(500*few)):
            d=b"".join(r.choice(pool) for _ in range(r.choice([1,1,2,3]))); d=mutate(r,d,pool)
            def act(s):
                s.conn(A).wild(A); p=0
                if r.random()<0.2: s.maxsend(r.choice([1,100,5000]),A)
                while p<len(d):
                    k=r.choice([len(d),len(d),100,1000,3]) if len(d)<1000 else r.choice([len(d),1000,5000]); s.raw(d[p:p+k],A); p+=k
                    if r.random()<0.5: s.rounds(1)
                end(s,A)
            sc.append(around(Scn(w,"any%d"%n),act))
        # nothing of theirs stays behind
        for n in range(60 if c.thorough else int(24*few)):
            s=Scn(w,"rest%d"%n)
            for x,(name,f) in enumerate(al): s.conn(x).req(f(ka=False),c=x).pump()
            s.conn(90).wild(90).raw(MAL[0],90).pump().rst(90).pump().gauge()
            for x in range(40,40+r.choice([2,6])):
                s.conn(x).wild(x); d=r.choice(MAL) if r.random()<0.3 else mutate(r,r.choice(pool),pool)
                s.raw(d,x).rounds(r.choice([0,1,2])); (s.pump() if r.random()<0.5 else s); s.rst(x)
            s.pump().gauge().conn(91).req(q(ka=False),c=91).pump().gauge(); sc.append(s)
        todo.append((w,sc))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
def crowd(c):
    """a request on every one of more connections than the events of one turn, while uploads end"""
    r=c.rnd; out=[]; w=World(c,"default"); U=12
    for n in ([1030] if not c.thorough else [1020,1024,1030,1500,2100]):
        s=Scn(w,"crowd%d"%n)
        for x in range(n+U): s.conn(x)
        s.pump()
        for x in range(U): s.req(Req("/x",method="POST",body=bytes([x])*(1500000+r.randrange(300000)),ka=x%2==0),c=n+x)
        s.rounds(1)
        for x in r.sample(range(n),n): s.req(Req("/y"),c=x)
        s.pump().conn(8000).req(Req("/z"),c=8000).pump().gauge(); out.append(s)
    conform(c,w,out); w.close()
def crowded(c):
    """no descriptors for some of the connections, and connections that are gone before they are accepted"""
    A=["keep","drop","bad"]; r=c.rnd
    if c.thorough: turns.design(c,3,1,["keep","drop"],True,False,False,cap=2); turns.live(c,2,2,A,True,True,False,cap=1)
    else: turns.design(c,2,1,["keep","drop"],True,True,False,cap=1); turns.live(c,2,1,["drop"],True,False,False,cap=1)
    hs=turns.histories(c,2,1,A,True,False,False,cap=1); turns.replay(c,hs if c.thorough else r.sample(hs,min(len(hs),250)),cap=1)
    for k in (1,2,3): turns.replay(c,turns.walks(c,1500 if c.thorough else 60,18,5,3,A,True,True,False,cap=k),cap=k)
    out=[]; w=World(c,"file")
    for n in range(600 if c.thorough else 60):
        s=Scn(w,"lost%d"%n); k=r.randrange(2,7); gone=set(r.sample(range(k),r.randrange(1,k)))
        if r.random()<.3: s.limit(r.randrange(1,4))
        for x in range(k):
            s.conn(x); s.req(Req("/a.txt",ka=False),c=x)
            if x in gone: s.lost(x,r.choice([103,103,4]))
        s.pump()
        if r.random()<.5: s.conn(50).req(Req("/a.txt",ka=False),c=50).pump()
        out.append(s)
    conform(c,w,out); w.close()
