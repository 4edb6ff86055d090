import itertools
from srv import *
import srv, turns
BIG=bytes((i*7+i//251)%256 for i in range(300000))
FILES=[("www/a.txt",b"alpha content\n"),("www/b.txt",b"bravo, another content of another length\n"),("www/e.txt",b""),("www/big.bin",BIG),("www/d/x.txt",b"x in d\n"),("www/m.html",b"<p>m</p>"*500),("www/priv/s.txt",b"protected content\n")]
LOCS=[dict(pat="/gif",h="gif"),dict(pat="/hello",h="default"),dict(pat="/priv/",users=[("u","p")])]
def alphabet(etag):
    """requests of every kind whose handling goes through different code"""
    return [("file",lambda **k:Req("/a.txt",**k)),("other",lambda **k:Req("/b.txt?q",**k)),("empty",lambda **k:Req("/e.txt",**k)),("big",lambda **k:Req("/big.bin",**k)),("range",lambda **k:Req("/b.txt",rg="bytes=3-9",**k)),("bigrange",lambda **k:Req("/big.bin",rg="bytes=1000-290000",**k)),("unsat",lambda **k:Req("/a.txt",rg="bytes=999-",**k)),
        ("notmod",lambda **k:Req("/a.txt",inm=etag,**k)),("mod",lambda **k:Req("/a.txt",inm='"deadbeef"',**k)),("dir",lambda **k:Req("/d/",**k)),("redir",lambda **k:Req("/d",**k)),("none",lambda **k:Req("/nope",**k)),("gif",lambda **k:Req("/gif",**k)),("hello",lambda **k:Req("/hello",**k)),("unauth",lambda **k:Req("/priv/s.txt",**k)),("auth",lambda **k:Req("/priv/s.txt",auth=("u","p"),**k)),
        ("post",lambda **k:Req("/a.txt",method="POST",body=b"GET /b.txt HTTP/1.1\r\n\r\n",**k)),("postbig",lambda **k:Req("/b.txt",method="PUT",body=BIG[:40000],**k)),("chunked",lambda **k:Req("/a.txt",method="POST",body=b"chunk data GET / HTTP/1.1\r\n\r\n"*20,chunked=True,**k)),("chunked0",lambda **k:Req("/hello",method="POST",body=b"",chunked=True,**k)),("postgif",lambda **k:Req("/gif",method="POST",body=b"zz",**k)),("post401",lambda **k:Req("/priv/s.txt",method="POST",body=b"A"*3000,**k))]
def world(c,handler="dispatch",**k):
    return World(c,handler,locs=LOCS if handler=="dispatch" else [],files=FILES,**k)
def first_etag(c,w):
    """the validator the server announces for a.txt (learnt from the running code)"""
    res=srv.run(c,w,[Scn(w,"etag").conn().req(Req("/a.txt")).pump()])
    m=re.search(rb"ETag: (\S+)\r\n",res["etag"].sent(0)); return m.group(1).decode() if m else '"0"'
def check(c):
    K=["keep","drop"]
    if c.thorough: turns.design(c,2,2,K,False,True,False); turns.live(c,2,2,K,False,True,False)
    else: turns.design(c,1,3,K,False,True,False); turns.live(c,1,2,K,False,True,False)
    turns.replay(c,turns.histories(c,1,3,K,False,True,False)+(turns.histories(c,2,2,K,False,True,False) if c.thorough else [])+turns.walks(c,3000 if c.thorough else 80,20,3,4,K,False,True,False))
    r=c.rnd; todo=[]
    for h in ("dispatch","file"):
        w=world(c,h); al=alphabet(first_etag(c,w)); sc=[]
        if h=="file": al=[a for a in al if a[0] not in ("unauth","auth","gif","hello","postgif","post401","chunked0")]
        light=[a for a in al if a[0] not in ("big","bigrange","postbig")]
        def add(tag,seq,how):
            s=Scn(w,tag).conn()
            if how=="whole": s.req(*seq).pump()
            elif how=="each":
                for q in seq: s.req(q).pump()
            elif how=="cut":
                s.plan(0,*seq); n=len(s.stream[0]); p=0
                while p<n: k=r.choice([1,2,3,10,50,200,1000,5000]); s.send(k); p+=k; (s.pump() if r.random()<0.5 else s.rounds(1) if r.random()<0.5 else 0)
                s.pump()
            elif how=="overlap":
                for q in seq: s.req(q).rounds(1)
                s.pump()
            sc.append(s)
        for (n1,f1),(n2,f2) in itertools.product(al,al):
            for how in (("whole","each","overlap") if c.thorough else ("whole",)): add("p%s-%s-%s"%(n1,n2,how),[f1(),f2()],how)
        tri=list(itertools.product(light,light,light)); r.shuffle(tri)
        for n,t in enumerate(tri[:3000 if c.thorough else 250]): add("t%d"%n,[f() for _,f in t],r.choice(["whole","each","overlap","cut"]))
        # the closing request at every place of a pipeline
        for n in range(300 if c.thorough else 80):
            k=r.choice([2,3,5,9]); seq=[r.choice(light)[1]() for _ in range(k)]; i=r.randrange(k)
            seq[i]=r.choice(al)[1](ka=False,ver=r.choice(["1.0","1.1"])); add("c%d"%n,seq,r.choice(["whole","each","overlap","cut"]))
        # long pipelines
        for n in range(20 if c.thorough else 5): add("l%d"%n,[r.choice(light)[1]() for _ in range(r.choice([20,60,150]))]+[r.choice(al)[1]()],["whole","overlap","cut"][n%3])
        # slow readers
        for n in range(100 if c.thorough else 25):
            s=Scn(w,"s%d"%n).conn().maxsend(r.choice([50,333,1500,9000])); s.req(*[r.choice(light)[1]() for _ in range(r.choice([2,4,6]))]).pump(); sc.append(s)
        # several connections at once
        for n in range(100 if c.thorough else 25):
            s=Scn(w,"m%d"%n); k=r.choice([2,3,5])
            for x in range(k): s.conn(x)
            for _ in range(r.choice([4,10])):
                x=r.randrange(k); s.req(*[r.choice(light)[1]() for _ in range(r.choice([1,1,2,3]))],c=x)
                if r.random()<0.5: s.rounds(r.choice([1,2]))
            s.pump(); sc.append(s)
        todo.append((w,sc))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
