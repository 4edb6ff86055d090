import itertools, texts
def check(c):
    r=c.rnd; ab=[-1]; B=list
    P={"scheme":[b"http",b"https",b"a",b"svn+ssh",b"s"*30],"user":[None,None,b"user",b"",b"a%40b",b"u"*100],"pass":[None,b"pw",b"",b"p:q",b"p"*100],
       "host":[b"localhost",b"h",b"",b"a.b.c",b"127.0.0.1",b"[::1]",b"[2001:db8::17]",b"h"*200],"ports":[None,None,b"80",b"8080",b"",b"0",b"65535",b"00080"],
       "path":[None,b"/",b"/a/b.txt",b"/a:b@c",b"/%20x",b"/"+b"p"*900,b"/a//",b"/[x]"],"query":[None,None,b"",b"a=b",b"x?y&z=/:@",b"q"*900],"frag":[None,None,b"",b"frag",b"a/b?c#d",b"f"*200]}
    def rec(v): return {k:(ab if t is None else B(t)) for k,t in v.items()}
    def text(v):
        t=v["scheme"]+b"://"
        if v["user"] is not None: t+=v["user"]+(b":"+v["pass"] if v["pass"] is not None else b"")+b"@"
        t+=v["host"]+(b":"+v["ports"] if v["ports"] is not None else b"")
        for k,p in (("path",b""),("query",b"?"),("frag",b"#")):
            if v[k] is not None: t+=p+v[k]
        return t
    vs=[]; K=list(P)
    # every combination of present and absent parts, with different contents
    for pres in itertools.product([0,1],repeat=6):
        for _ in range(40 if c.thorough else 8):
            v={}
            for k in K:
                if k in ("scheme","host"): v[k]=r.choice(P[k])
                else:
                    on=pres[["user","pass","ports","path","query","frag"].index(k)]
                    v[k]=r.choice([t for t in P[k] if t is not None]) if on else None
            if v["user"] is None: v["pass"]=None
            vs.append(v)
    # each part at and around the room there is for its copy
    for k,z in (("scheme",64),("user",128),("pass",128),("host",256),("path",1024),("query",1024),("frag",256)):
        for n in (z-2,z-1,z,z+1,z+500):
            v=dict(scheme=b"http",user=b"u",**{"pass":b"p"},host=b"h",ports=b"1",path=b"/p",query=b"q",frag=b"f"); v[k]=(b"/" if k=="path" else b"x")+b"y"*(n-1); vs.append(v)
    # contents over an alphabet with the separators that may appear in each part
    A={"user":b"a.%",  "pass":b"a:.","host":b"a.-","path":b"/a:@%","query":b"a?/:@=","frag":b"a?/#@:"}
    for _ in range(6000 if c.thorough else 1500):
        v={k:None for k in K}; v["scheme"]=r.choice(P["scheme"])
        for k in A:
            if k=="host" or r.random()<0.6: v[k]=bytes(r.choice(A[k]) for _ in range(r.randrange(0,5)))
        if v["path"] is not None: v["path"]=b"/"+v["path"]
        if v["user"] is None: v["pass"]=None
        if r.random()<0.5: v["ports"]=str(r.randrange(65536)).encode()
        vs.append(v)
    texts.check(c,"url",[text(v) for v in vs],info=lambda k:{"u":rec(vs[k])})
    # anything else: refused or taken apart, never read outside
    bad=list(texts.strings([b"a",b":",b"/",b"@",b"?",b"#"],6 if c.thorough else 4))
    bad+=[b"a://"+t for t in texts.strings([b"a",b":",b"/",b"@",b"?",b"[",b"]"],5 if c.thorough else 3)]
    bad+=[b"http://h:%d/"%n for n in (65536,99999,4294967296,4294967376,10**30)]+[b"http://h:8x/",b"http://h:-1/",b"http://h: 80/",b"http://[::1/",b"http://]:1/",b"http://h:"+b"9"*400+b"/",b"s"*5000,b"http://"+b"h"*5000,b"http://h/"+b"p"*70000,b"a://u:"+b"p"*3000+b"@h/"]
    for _ in range(500):
        t=bytearray(text(r.choice(vs))); 
        for _ in range(r.randrange(1,4)):
            if t: t[r.randrange(len(t))]=r.choice(b":/@?#[]\0 %a\xff")
        bad.append(bytes(t[:r.randrange(len(t)+1)]) if r.random()<0.4 else bytes(t))
    texts.check(c,"url",bad)
