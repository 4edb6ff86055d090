"""every response is one well-formed message, whatever its status and whoever made it"""
from srv import *
import srv, check_S03, check_S17, check_S13, check_S06
ODDNAMES=["sp ace","per%cent","100%25","a&b","<b>","q\"uote","t'ick","${out value=x}","new\nline","cr\rcr","crlf\r\nX-Injected: yes","tab\tt","\u00e9t\u00e9","semi;colon","x"*200,"dots...","#hash","q?mark","%s%s%n","a:b","Content-Length: 5","%d%a"]
def esc(s): return "".join(ch if ch.isalnum() and ch.isascii() else "".join("%%%02x"%b for b in ch.encode("utf-8")) for ch in s)
def check(c):
    r=c.rnd; todo=[]
    def scns(w,al,tag,n):
        sc=[]; q=lambda **k: r.choice(al)[1](**k)
        vary=lambda: dict(ka=r.random()<0.85,ver=r.choice(["1.1","1.0","1.1","1.9"]))
        for name,f in al:
            for ka in (True,False):
                for ver in ("1.0","1.1"): sc.append(Scn(w,"%s-%s-%d%s"%(tag,name,ka,ver)).conn().req(f(ka=ka,ver=ver)).pump())
        for i in range(n):
            s=Scn(w,"%s-h%d"%(tag,i)).conn()
            if r.random()<0.5: s.maxsend(r.choice([1,9,40,250,1000,30000]))
            for _ in range(r.choice([1,3,6])):
                s.req(*[q(**vary()) for _ in range(r.choice([1,2,4]))])
                if r.random()<0.5: s.pump()
            if r.random()<0.4: s.req(Bad(r.choice(check_S13.MAL)))
            s.pump(); sc.append(s)
        for i,m in enumerate(check_S13.MAL): sc.append(Scn(w,"%s-mal%d"%(tag,i)).conn().req(q(),Bad(m)).pump())
        return sc
    n=120 if c.thorough else 25
    odd=[("www/odd/%s/f"%x,b"odd file\n") for x in ODDNAMES]+[("www/%s.txt"%x,b"odd name "+x.encode()) for x in ODDNAMES]
    realm=[dict(pat="/priv/",users=[("u","p")])]+[dict(pat="/r%d"%k,users=[("u","p")],name="R%d"%k) for k in range(2)]
    for h in ("dispatch","file"):
        for ut in (True,False):
            w=World(c,h,locs=check_S03.LOCS+realm[1:] if h=="dispatch" else [],files=check_S03.FILES+odd,use_template=ut)
            al=check_S03.alphabet(check_S03.first_etag(c,w)); w.heads=True
            if h=="file": al=[a for a in al if a[0] not in ("unauth","auth","gif","hello","postgif","post401","chunked0")]
            for i,x in enumerate(ODDNAMES):
                e=esc(x); al+=[("od%d"%i,lambda e=e,**k:Req("/odd/"+e,**k)),("os%d"%i,lambda e=e,**k:Req("/odd/"+e+"/",**k)),("on%d"%i,lambda e=e,**k:Req("/nope/"+e,**k)),("of%d"%i,lambda e=e,**k:Req("/"+e+".txt",**k))]
                if not ("\n" in x or "\r" in x or " " in x or "\t" in x or "#" in x or "?" in x or "\u00e9" in x or "%" in x or '"' in x or "<" in x): al.append(("or%d"%i,lambda x=x,**k:Req("/odd/"+x,**k)))
            al+=[("m-"+m,lambda m=m,**k:Req(r.choice(["/a.txt","/nope","/d","/d/"]),method=m,**k)) for m in ("DELETE","OPTIONS","TRACE","PATCH","PROPFIND","LOCK")]
            al+=[("long%d"%k,lambda k=k,**kw:Req("/"+"n"*k,**kw)) for k in (100,500,800,1000,1024)]
            if h=="dispatch": al+=[("r%d"%k,lambda k=k,**kw:Req("/r%d/x"%k,**kw)) for k in range(2)]
            todo.append((w,scns(w,al,h,n)))
    meth=["GET","POST","PUT","DELETE"]
    plain=[("x",lambda **k:Req("/x",**k)),("post",lambda **k:Req("/y",method="POST",body=b"body",**k)),("long",lambda **k:Req("/"+"z"*900,**k))]
    for h in ("default","gif","diag"):
        w=World(c,h,files=[("www/a.txt",b"never served")]); w.abstract=(check_S17.diag,); w.heads=True
        todo.append((w,scns(w,plain,h,n//3)))
    for name,script,body in check_S17.SCRIPTS:
        for ut in (True,False) if body is None else (True,):
            w=World(c,"lua",ini_extra="[mod_lua]\nscript_path=etc/h.lua\n",use_template=ut); check_S17.lua(w,script,body); w.heads=True
            todo.append((w,scns(w,plain,name,4)))
    # HEAD: the message ends with its head
    head=[]
    for h in ("dispatch","file","default","gif"):
        w=World(c,h,locs=check_S03.LOCS if h=="dispatch" else [],files=check_S03.FILES)
        sc=[]
        for i,u in enumerate(("/a.txt","/e.txt","/d/","/d","/nope","/big.bin","/gif","/hello","/priv/s.txt")): 
            for ka in (True,False): sc.append(Scn(w,"head-%s%s-%d"%(h,u,ka)).conn().req(Req(u,method="HEAD",ka=ka)).pump())
        head.append((w,sc))
    srv.conform_many(c,todo)
    # recorded: bodies sent in answer to HEAD, by what they are of
    k=lambda s,e: "HEAD answered with a body: "+s.id.split("-")[1] if isinstance(e,dict) and e["o"]=="junk" else None
    srv.conform_many(c,head,key=k)
    for w,_ in todo: w.close()
    for w,sc in head: w.close()
    check_S06.changing(c,"part",0.12)
