import hashlib
from srv import *
import srv, check_S03
def check(c):
    r=c.rnd; todo=[]; runs=[]
    for h in ("dispatch","file"):
        w=check_S03.world(c,h); et=check_S03.first_etag(c,w); al=dict(check_S03.alphabet(et)); sc=[]
        def P(seq,tag):
            """the same stream cut in many ways"""
            mk=lambda: [f() for f in seq]
            n=sum(len(x.bytes) for x in mk()); cuts=[("whole",[])]
            pts=range(1,n) if n<(3000 if c.thorough else 700) else sorted(r.sample(range(1,n),300 if c.thorough else 60))
            if len(pts)>260 and not c.thorough: pts=sorted(r.sample(list(pts),260))
            cuts+=[("2@%d"%p,[p]) for p in pts]
            cuts+=[("3@%d"%i,sorted(r.sample(range(1,n),2))) for i in range(30)]
            if n<4000: cuts+=[("bytes",list(range(1,n))),("pairs",list(range(2,n,2))),("triples",list(range(3,n,3)))]
            cuts+=[("rnd%d"%i,sorted(r.sample(range(1,n),min(n-1,r.choice([3,8,20,60]))))) for i in range(20)]
            for name,cut in cuts:
                s=Scn(w,"%s:%s"%(tag,name)).conn().plan(0,*mk()); p=0
                mode=r.choice(["pump","round","mixed"]) if name!="whole" else "pump"
                for x in cut+[n]:
                    s.send(x-p); p=x
                    if mode=="pump": s.pump()
                    elif mode=="round": s.rounds(1)
                    elif r.random()<0.4: s.rounds(r.choice([1,2]))
                s.pump(); sc.append(s); runs.append((w,s,h+tag))
            for k in (1,2,3,5,7,64,1000):
                if k<5 and n>4000: continue
                s=Scn(w,"%s:recv%d"%(tag,k)).conn().maxrecv(k).req(*mk()).pump(); sc.append(s); runs.append((w,s,h+tag))
        longh=lambda **k: Req("/a.txt",headers=[("X-%d"%i,"v"*r_) for i,r_ in enumerate([1,100,700])]+[("Cookie","c=%s"%("d"*300))],**k)
        post=lambda **k: Req("/b.txt",method="POST",body=bytes(range(256))*3+b"\r\n\r\nGET /x HTTP/1.1\r\n\r\n",**k)
        streams={"get":[al["file"]],"rng":[al["range"],al["notmod"]],"three":[al["file"],al["range"],al["none"]],"post":[post,al["file"]],"chunk":[al["chunked"],al["file"]],"longh":[longh],"close":[al["dir"],lambda:Req("/a.txt",ka=False,ver="1.0")],"redir":[al["redir"],al["empty"]],
                 "longurl":[lambda:Req("/a.txt?"+"q=%41&"*200),al["file"]]}
        if h=="dispatch": streams.update({"auth":[al["auth"],al["unauth"],al["auth"]],"mod":[al["gif"],al["hello"],al["postgif"]],"enc":[lambda:Req("/%70riv/%73.txt",auth=("u","p")),lambda:Req("/d/../a.txt")]})
        else: streams.update({"bigpost":[al["postbig"],al["file"]],"big":[al["big"],al["file"]],"ver":[lambda:Req("/a.txt",ver="1.0"),lambda:Req("/%61.txt",rg="bytes=-3")]})
        for t,seq in streams.items(): P(seq,t)
        todo.append((w,sc))
    res=srv.conform_many(c,todo)
    # one history of exchanges: the specification remembers the answer of each stream
    ev=[]
    for w,s,t in runs:
        rs=res[[x for x,_ in todo].index(w)].get(s.id)
        if rs is not None and rs.ok: ev.append({"o":"exchange","s":t,"out":hashlib.sha256(rs.sent(0)).hexdigest()[:20]+("closed" if rs.closed(0) else "kept"),"id":s.id})
    by={}
    for e in ev: by.setdefault(e["s"],[]).append(e)
    for t,p in c.validate("Segmentation",[{"id":k,"ev":v} for k,v in by.items()]):
        c.violation("segmentation","stream %s cut as %s got other bytes than before"%(t["id"],t["ev"][p]["id"]),{"stream":t["id"],"cut":t["ev"][p]["id"]})
    c.note("streams",len(by)); c.note("cuts",len(ev))
    for w,_ in todo: w.close()
