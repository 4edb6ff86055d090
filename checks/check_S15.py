"""Requests that a proxy location passes on: every request, however it is written,
cut up, pipelined or interleaved, reaches exactly the backend of its location,
once, as the same request below the location's prefix."""
import itertools
import proxy
from proxy import PScn, request, response, chunked

HS=[(),(("Host","h.example"),),(("Accept",""),("X-A","b c"),("X-A","d")),(("X-Fold","one\r\n two"),("Y","z")),tuple(("X-%d"%i,"v"*(i*7%90)) for i in range(40)),(("X-Long","w"*9000),)]
URLS=["/px","/px/","/px/a","/px/a/b.html?x=1&y=%20z","/pxx","/px?q","/px//a","/px/../etc","/py/","/py/a?b=/px","/q/r","/q/r/s/t","/px/"+"u"*300,"/px/"+"d/"*900+"?"+"q"*1500]
BODIES=[(None,b""),("len",b""),("len",b"x"),("len",b"hello=world\r\n\r\nGET / HTTP/1.1\r\n\r\n"),("len",bytes(range(256))*40),("chunked",b""),("chunked",b"abc"),("chunked",b"0\r\n\r\n"*7),("chunked",bytes(range(256))*90)]
METHODS=["GET","POST","PUT","DELETE","HEAD","OPTIONS"]

def tag(i): return "TAG%dE"%i
def rq(i,u,**k):
    """a request that can be told by the text it carries in its headers"""
    return request(u,h=(("X-Tag",tag(i)),)+tuple(k.pop("h",())),**k)
def ok(i=0,**k): return response(200,body=b"answer %d"%i,**k)

def singles(c):
    out=[]; n=0; R=c.rnd
    combos=[(u,METHODS[i%6],BODIES[i%len(BODIES)],HS[i%len(HS)],("1.1","1.0")[i%5==4]) for i,u in enumerate(URLS*3)]
    combos+=[(u,m,b,(),"1.1") for m in METHODS for b in BODIES for u in ("/px/z",)]
    combos+=[("/py/h",m,BODIES[3],h,v) for h in HS for m in ("GET","POST") for v in ("1.0","1.1")]
    for k in range(60 if not c.thorough else 1500):
        u=R.choice(["/px","/py/","/q/r"])+"".join(R.choice("ab/?&=%.-~:;,+@!$'()*") for _ in range(R.randrange(30)))
        h=[("H%d"%j,"".join(R.choice("ab ,;=:\"\t") for _ in range(R.randrange(20))).strip(" \t")) for j in range(R.randrange(6))]
        b=bytes(R.randrange(256) for _ in range(R.choice([0,1,5,100,20000])))
        combos.append((u,R.choice(METHODS),(R.choice([None,"len","chunked"]) if not b else R.choice(["len","chunked"]),b),h,R.choice(["1.0","1.1","1.1"])))
    for u,m,(f,b),h,v in combos:
        n+=1; s=PScn("one%d"%n).conn()
        kw={}
        if f=="chunked": kw=dict(sizes=R.choice([(3,),(1,200),(70000,),(16,1)]),ext=R.random()<.3,trailers=(("T","v"),) if R.random()<.3 else ())
        d=rq(n,u,method=m,v=v,h=h,body=b,framing=f,ka=n%4>0,**kw)
        cut=R.random()
        if cut<.4: s.send(d).pump()
        else:
            cuts=sorted(R.sample(range(1,len(d)),min(len(d)-1,R.choice([1,2,5])))); p=0
            s.send(d,cuts=[cuts[0]]); p=cuts[0]; s.pump()
            for x in cuts[1:]: s.more(x-p); p=x; s.pump()
            s.more(); s.pump()
        s.ans(tag(n),ok(n) if m!="HEAD" else response(200,h=(("Content-Length","9"),),framing=None)).pump()
        out.append(s)
    return out
def bytewise(c):
    out=[]
    for n,(m,u,f,b) in enumerate([("GET","/px/a?b",None,b""),("POST","/py/form","len",b"a=1&b=2"),("PUT","/q/r/x","chunked",b"some data, longer than it")]):
        d=rq(n,u,method=m,h=HS[3],body=b,framing=f,sizes=(4,12),ext=True,trailers=(("T","v"),))
        s=PScn("byte%d"%n).conn().send(d,cuts=[1]).pump()
        for _ in range(len(d)-1): s.more(1).pump()
        s.ans(tag(n),ok()).pump(); out.append(s)
        step=1 if c.thorough else 3
        for k in range(1,len(d),step):
            out.append(PScn("cut%d_%d"%(n,k)).conn().send(d,cuts=[k]).pump().more().pump().ans(tag(n),ok()).pump())
        for k in (1,2,3,7,50):
            s=PScn("rd%d_%d"%(n,k)).conn().maxrecv(k).send(d).pump().ans(tag(n),ok()).pump(); out.append(s)
    return out
def sequences(c):
    """several requests of one connection and of several, pipelined or not, to several places"""
    out=[]; R=c.rnd; U=["/px/1","/py/2","/q/r/3","/hello"]
    def fin(s,n,i,m): s.ans(tag(i),ok(i,ka=True) if m!="HEAD" else response(204,framing=None)).pump()
    for n,us in enumerate(itertools.product(U,repeat=3)):
        s=PScn("seq%d"%n).conn(); pipe=n%3
        for i,u in enumerate(us):
            m=("GET","POST")[i%2]; s.send(rq(i,u,method=m,body=b"b%d"%i if m=="POST" else b"",framing="len" if m=="POST" else None))
            if pipe==0:
                s.pump()
                if u!="/hello": fin(s,n,i,m)
        if pipe: 
            s.pump()
            for i,u in enumerate(us):
                if u!="/hello": fin(s,n,i,m)
        out.append(s)
    for n in range(60 if not c.thorough else 1200):
        s=PScn("mix%d"%n); C=R.choice([1,2,3,4]); i=0; wait=[]   # (client, tag)
        for k in range(C): s.conn(k)
        s.pump(); busy={k:[] for k in range(C)}; part={}; cid={}
        for _ in range(R.choice([10,20,40])):
            k=R.randrange(C); x=R.random()
            if x<.45 and k not in part:
                i+=1; u=R.choice(U+["/px","/py/?z"]); m=R.choice(["GET","POST","PUT"]); b=b"" if m=="GET" else bytes(R.randrange(256) for _ in range(R.choice([0,3,3000])))
                d=rq(i,u,method=m,h=R.choice(HS[:5]),body=b,framing=None if m=="GET" else R.choice(["len","chunked"]),sizes=R.choice([(1,),(7,100),(5000,)])if len(b)<50 else (R.choice([100,1000,9000]),))
                if R.random()<.5: s.send(d,k)
                else: s.send(d,k,cuts=[R.randrange(1,len(d))]); part[k]=True
                if u!="/hello": busy[k].append(i)
                if R.random()<.7: s.pump()
            elif x<.6 and k in part:
                if R.random()<.6 or len(s.left[k])<30: del part[k]; s.more(None,k)
                else: s.more(R.randrange(1,20),k)
                if R.random()<.7: s.pump()
            elif busy[k] and not (k in part and len(busy[k])==1):
                s.pump(); j=busy[k].pop(0); s.ans(tag(j),ok(j,framing=R.choice(["len","chunked"]))).pump()
        for k in range(C):
            if k in part: s.more(None,k)
        s.pump()
        for k in range(C):
            for j in busy[k]: s.ans(tag(j),ok(j)).pump()
        out.append(s)
    return out
def slow(c):
    """backends that take what they are sent in small portions, or late"""
    out=[]; n=0
    for f,b in BODIES:
        for lim in (1,7,1000):
            n+=1; s=PScn("lim%d"%n).limit(lim).conn(); m="POST"
            if len(b)>5000 and lim==1: continue
            s.send(rq(n,"/px/s",method=m,body=b,framing=f)).pump().ans(tag(n),ok()).pump(); out.append(s)
            s=PScn("late%d"%n).slow(lim*3,-1).conn().send(rq(n,"/px/s",method=m,body=b,framing=f)).pump().open().pump().ans(tag(n),ok()).pump(); out.append(s)
    return out

def others(c):
    """backends whose addresses begin alike, or are the same, or are those of other locations"""
    R=c.rnd
    for n,(tail,locs) in enumerate([("",[("/a","127.0.0.1",900),("/b","127.0.0.1",9001),("/c","127.0.0.1",90),("/d","127.0.0.1",9)]),
                                    ("",[("/b","127.0.0.11",80),("/a","127.0.0.1",80),("/c","127.0.0.1",8),("/ab","127.0.0.1",9001)]),
                                    ("/",[("/a/b","127.0.0.1",9001),("/a","127.0.0.1",9002),("/c","127.0.0.1",9001),("/d","127.0.0.1",9002)])]):
        w=proxy.world(c,locs,tail=tail); out=[]; U=[l[0]+"/x%d"%i for i,l in enumerate(locs)]+["/hello"]
        for k,us in enumerate(itertools.product(U,repeat=3)):
            s=PScn("o%d-%d"%(n,k)).conn(); pipe=k%3
            for i,u in enumerate(us):
                m=("GET","POST")[i%2]; s.send(rq(i,u,method=m,body=b"b%d"%i if m=="POST" else b"",framing="len" if m=="POST" else None))
                if pipe==0:
                    s.pump()
                    if u!="/hello": s.ans(tag(i),ok(i,ka=(k+i)%4!=0)).pump()
            if pipe:
                s.pump()
                for i,u in enumerate(us):
                    if u!="/hello": s.ans(tag(i),ok(i,ka=True)).pump()
            out.append(s)
        proxy.conform(c,w,out,locs=locs); w.close()

def check(c):
    ALL=["keep","drop","eof","info"]
    if c.thorough: proxy.design(c,1,2,["keep","eof"],True,False); proxy.design(c,1,3,["keep"],False,False)
    else: proxy.design(c,1,2,["keep"],False,False)
    hs=proxy.histories(c,"g",1,2,["keep"],False,True,lazy=.3,keep=1 if c.thorough else .35)
    if c.thorough: hs+=proxy.histories(c,"r",3,3,ALL,True,True,lazy=.5,walks=4000,length=25)
    w=proxy.world(c)
    c.assume+=["the backends are simulated connections that behave as TCP does; connecting to one either works at once or is refused","requests given to the proxy are well formed ones (others: S02)"]
    proxy.conform(c,w,singles(c)+bytewise(c)+sequences(c)+slow(c)+hs)
    w.close()
    others(c)
