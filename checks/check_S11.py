import base64, itertools
from srv import *
import srv
def check(c):
    r=c.rnd
    long_=("u"*120,"p"*120); vlong=("v"*200,"q"*300)
    users1=[("alice","secret"),("bob","b:ob"),("carol",""),("Dave","D@ve pass"),long_,vlong,("spaced name"," lead"),("x","y"),("utf\xe9","p\xe9")]
    users2=[("alice","other"),("erin","erinpw"),("bob","b")]
    files=[("www/pub.txt",b"public file data\n"),("www/priv/a.txt",b"PRIVATE-ONE content a\n"),("www/priv/sub/b.txt",b"PRIVATE-ONE content b\n"),("www/priv/index.html",b"PRIVATE-ONE index page"),
           ("two/t.txt",b"PRIVATE-TWO content t\n"),("www/def/d.txt",b"PRIVATE-DEF content d\n"),("www/priv/empty.txt",b"")]
    # what the password file says: name up to the first colon, password up to the next
    def pw(us): return "".join("%s:%s\n"%u for u in us)
    lists=[users1,users2,[("root","root")]]
    every=[u for l in lists for u in l]+[("nobody","nothing"),("root",""),("",""),("","secret"),("alice","Secret"),("Alice","secret"),("alice","secret "),("alice","secre"),("alice","secrett"),("alic","esecret"),("alice:secret",""),("bob","b"),("bob","b:o"),("carol","x"),("carol",None),("u"*121,"p"*120),("u"*120,"p"*119),("u"*127,"p"*127),("u"*128,"p"*128),("u"*500,"p"*200),("a"*700,"b")]
    def b64(x): return base64.b64encode(x.encode("latin1") if isinstance(x,str) else x).decode()
    creds=[None]
    for u,p in every: creds.append("Basic "+b64(u+(":"+p if p is not None else "")))
    good=b64("alice:secret"); g2=b64("erin:erinpw")
    creds+=["basic "+good,"BASIC "+good,"Basic"+good,"Basic  "+good,"Bearer "+good,"Digest "+good,"Basic",good,"Basic "+good+"=","Basic "+good[:-1],"Basic "+good[:-2],"Basic "+good[:-4],"Basic =","Basic ====","Basic A","Basic AA","Basic AAA","Basic "+"A"*400,"Basic "+"="*40,"Basic !!!!","Basic "+good[:5]+"!"+good[6:],"Basic "+good+good,"Basic "+good+" ","Basic "+b64("alice:secret\0"),"Basic "+b64("alice\0:secret"),"Basic "+b64("alice:secret\n"),"Basic "+b64("alice:secret\nbob:x"),"Basic "+b64("\xff\xfe"),"Basic "+b64(":"),"Basic "+b64("::"),"Basic "+"B"*1000,"Basic "+"C"*1400,"Basic "+good+"A"*1200," ","","x","Basic "+b64("alice:secret:"),"Basic "+b64("alice:secret:x")]
    for n in range(0,20): creds.append("Basic "+good[:n]); creds.append(("Basic "+good)[:n])
    if c.thorough:
        for _ in range(600):
            x=list("Basic "+good); 
            for _ in range(r.choice([1,1,2,5])): x[r.randrange(len(x))]=r.choice("ABCabc019+/=-_ %:!")
            creds.append("".join(x))
    for tmpl in (True,False):
        for order in ((0,) if not c.thorough else (0,1)):
            locs=[dict(pat="/priv/",users=pw(users1)),dict(pat="/two/",base="two",users=pw(users2)),dict(pat="/def/",users="$default"),dict(pat="/pub",h="file")]
            if order: locs.reverse()
            w=World(c,"dispatch",locs=locs,files=files,use_template=tmpl)
            for l in w.rec["locs"]: l["users"]=[u for u in l["users"]]
            paths=["/priv/a.txt","/priv/sub/b.txt","/priv/","/priv/sub/","/priv/sub","/priv/nope","/two/t.txt","/two/","/two/x","/def/d.txt","/def/","/pub.txt","/priv/../pub.txt","/pub.txt/../priv/a.txt","//priv/a.txt","/./priv/a.txt","/%70riv/a.txt","/priv%2Fa.txt","/two/../priv/a.txt","/priv/./a.txt","/priv","/two","/priv/empty.txt"]
            sc=[]; q=[]
            for cr in creds:
                ps=paths if c.thorough else ["/priv/a.txt","/two/t.txt","/def/d.txt"]+r.sample(paths,2)
                for p in ps:
                    if cr is not None and ("\n" in cr or "\0" in cr): continue
                    q.append(Req(p,auth=cr,rg="bytes=0-6" if r.random()<0.05 else None,inm='"00000000"' if r.random()<0.05 else None))
            # requests without credentials after ones with valid ones, on the same connection
            for p in paths:
                for ok in (("alice","secret"),("erin","erinpw"),("root","root"),("alice","other")):
                    sc.append(Scn(w,"seq%d"%len(sc)).conn().req(Req(p,auth=ok),Req(p),Req("/priv/a.txt"),Req("/two/t.txt"),Req(p,auth=ok),Req("/pub.txt"),Req(p,auth=("alice","wrong"))).pump())
            r.shuffle(q)
            for i in range(0,len(q),15): sc.append(Scn(w,"q%d"%i).conn().req(*q[i:i+15]).pump())
            # other header names and positions
            for h in ("authorization","AUTHORIZATION","AuthoriZation","Proxy-Authorization","X-Authorization","Authorizatio","Authorizations"):
                a="Basic "+good; x=Req("/priv/a.txt",headers=[(h,a)])
                if h.lower()=="authorization": x.rec["au"]=cred(a)
                sc.append(Scn(w,"h"+h).conn().req(x,Req("/priv/a.txt")).pump())
            # the value of a header that has none is not taken from the one that follows
            for i,h in enumerate(("X-Authorization","Proxy-Authorization","Cookie","Accept")):
                x=Req("/priv/a.txt",headers=[("Authorization",""),(h,"Basic "+good)]); x.rec["au"]=cred("")
                sc.append(Scn(w,"v%d"%i).conn().req(x,Req("/priv/a.txt"),Req("/priv/a.txt",auth="Basic "+good),x).pump())
            # first valid, then the header repeated: the values are not a valid list, either may count
            srv.conform(c,w,sc); w.close()
    # the password file changes while the server runs: what it says now is what counts
    N=12
    for rep in range(4 if c.thorough else 1):
        w=World(c,"dispatch",locs=[dict(pat="/v%d/"%k,users=pw(users1)) for k in range(N)],files=[("www/v%d/a.txt"%k,b"PRIVATE %d\n"%k) for k in range(N)])
        sc=[]; tm=1500000100
        for k in range(N):
            x=Scn(w,"live%d"%k).conn(); p="/v%d/a.txt"%k
            known=[("alice","secret"),("alice","other"),("alice","newpw"),("zoe","z"),("erin","erinpw"),("x","y")]
            for step in range(r.choice([3,5])):
                x.req(*[Req(p,auth=u) for u in r.sample(known,4)]).pump()
                tm+=r.choice([0,0,1,60]); op=r.choice(["gone","empty","change","change","change"])
                if op=="gone": x.unlink("etc/pw%d"%k)
                else: x.passwd(k,[] if op=="empty" else list(dict(r.sample(known,3)).items()),tm)
            x.req(*[Req(p,auth=u) for u in known],Req(p)).pump(); x.fin().pump(); sc.append(x)
        c.note("live_password_files",N*(rep+1)); srv.conform(c,w,sc); w.close()
