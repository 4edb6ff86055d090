from srv import *
import srv, check_S03
def check(c):
    r=c.rnd; todo=[]
    keep=["keep-alive","Keep-Alive","KEEP-ALIVE","kEEP-aLIVE","keep-Alive"]
    drop=["close","Close","CLOSE","cloSE",None,"keep-aliv","keep-alivee","keepalive","keep_alive","alive","keep","x","foo bar","upgrade-insecure","closed","clos"]
    anyv=["keep-alive, foo","foo, keep-alive","keep-alive,close","close, keep-alive","keep-alive;x","\"keep-alive\""]
    names=["Connection","connection","CONNECTION","cOnNeCtIoN"]
    others=["Connectio","Connections","X-Connection","Connection-","Keep-Alive","Proxy-Connectio"]
    for h in ("dispatch","file"):
        w=check_S03.world(c,h,use_template=h=="file"); al=check_S03.alphabet(srv and check_S03.first_etag(c,w))
        if h=="file": al=[a for a in al if a[0] not in ("unauth","auth","gif","hello","postgif","post401","chunked0")]
        sc=[]
        def q(f,val,name="Connection",ver="1.1",pos=0):
            filler=[("X-A","b"),("Accept","*/*"),("X-Long","y"*r.choice([1,50,500]))][:r.randrange(4)]
            hs=([(name,val)] if val is not None else [])
            hs=filler+hs if pos else hs+filler
            x=f(conn="",ver=ver,headers=hs)
            x.rec["ka"]=val is not None and val.lower()=="keep-alive" and name.lower()=="connection"
            if val in anyv: x.rec["kaany"]=True
            return x
        n=0
        def scn(*qs,how="whole"):
            nonlocal n; n+=1
            s=Scn(w,"k%d"%n).conn()
            if how=="whole": s.req(*qs).pump()
            elif how=="each":
                for x in qs: s.req(x).pump()
            elif how=="bytes":
                s.plan(0,*qs)
                for i in range(len(s.stream[0])): s.send(1); (s.rounds(1) if i%3 else 0)
                s.pump()
            elif how=="slow": s.maxsend(r.choice([40,100,300])).req(*qs).pump()
            sc.append(s)
        plain=lambda **k: Req("/b.txt",**k)
        for name,f in al:
            for ver in ("1.0","1.1"):
                for val in keep+drop+anyv:
                    if not c.thorough and name not in ("file","none","dir","range","post") and r.random()<0.6: continue
                    k=val is not None and val.lower()=="keep-alive"
                    hn=r.choice(names)
                    scn(q(f,val,hn,ver,r.randrange(2)),*([q(plain,"keep-alive"),q(plain,"close")] if k or r.random()<0.3 else []),how=r.choice(["whole","each","slow"]) if k or True else "whole")
        for val in keep[:2]+drop[:3]:
            for nm in names+others:
                for ver in ("1.0","1.1","1.2","2.0","1.10"): scn(q(plain,val,nm,ver,r.randrange(2)),q(plain,"keep-alive") )
        for val in ["keep-alive","close","Keep-Alive",None]:
            for f in (plain,al[3][1],al[10][1],al[11][1]): scn(q(f,val),q(f,"keep-alive"),q(f,None),how="bytes")
        # several headers, only the first of which says so
        for a,b in (("keep-alive","x"),("x","close"),("keep-alive","keep-alive"),("close","close")):
            x=plain(conn="",headers=[("Connection",a),("X-B","c"),("X-Connection",b)]); x.rec["ka"]=a=="keep-alive"; scn(x,q(plain,"keep-alive"))
        # random histories: kept, kept, ..., dropped
        for i in range(200 if c.thorough else 60):
            k=r.choice([1,2,5,12]); seq=[]
            for j in range(k): seq.append(q(r.choice(al)[1],r.choice(keep if r.random()<0.9 else drop),r.choice(names),r.choice(["1.0","1.1"]),r.randrange(2)))
            scn(*seq,how=r.choice(["whole","each","slow","bytes"]))
        todo.append((w,sc))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
