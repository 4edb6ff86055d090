import srv, structs
from srv import *
def check(c):
    r=c.rnd
    MV=4 if c.thorough else 3
    gen=c.gen("VersionsGen",structs.GEN+"CONSTANT MaxVer=%d\n"%MV)
    times=[1500000000,1500000001,1500000060,1500086400,1531536000][:MV]
    w=World(c,"file",files=[("www/s.txt",b"static file\n"),("www/o.bin",b"other")]); d="www/v.txt"
    # the validators announced for the modification times: learned from the server
    pr=[]
    for i,t in enumerate(times):
        pr.append(Scn(w,"p%d"%i).conn().write("www/p%d.txt"%i,b"version %d\n"%i,t).req(Req("/p%d.txt"%i)).pump())
    res=srv.conform(c,w,pr)
    tags=[]
    for s in pr:
        h=parse_head(res[s.id].sent())if s.id in res else None
        tags.append(dict(h[1]).get("etag","\"none\"") if h and h!="bad" else "\"none\"")
    c.note("validators",len(set(tags)))
    if len(set(tags))!=len(tags): c.violation("validator","the same validator %s for different modification times"%tags,{"times":times,"tags":tags})
    def scen(id,ops,extra=()):
        f="www/h%s.txt"%id; s=Scn(w,id).conn().write(f,b"version 0 of a file\n",times[0]); v=0
        for op in ops:
            if op[0]=="mod": v=op[1]-1; s.write(f,b"version %d %s\n"%(v,b"x"*(v*v)),times[v])
            elif op[0]=="rm": s.unlink(f)
            elif op[0]=="same": s.write(f,b"rewritten version %d\n"%v,times[v])
            elif op[0]=="get": s.req(Req("/h%s.txt"%id)).pump()
            elif op[0]=="cond": s.req(Req("/h%s.txt"%id,inm=tags[op[1]-1])).pump()
            elif op[0]=="condr": s.req(Req("/h%s.txt"%id,inm=tags[op[1]-1],rg="bytes=1-3")).pump()
        return s.pump()
    sc=[]
    for n,g in enumerate(gen):
        ops=list(g)
        if n%3==0: ops=[["get"]]+ops
        sc.append(scen("g%d"%n,ops+[["cond",1],["cond",MV],["get"]]))
    for n in range(120 if c.thorough else 40):
        ops=[]; v=0
        for k in range(r.choice([6,12,20])):
            x=r.random()
            if x<0.2 and v<MV-1: v+=1; ops.append(["mod",v+1])
            elif x<0.25: ops.append(["same"])
            elif x<0.5: ops.append(["get"])
            elif x<0.9: ops.append(["cond",r.randrange(1,MV+1)])
            else: ops.append(["condr",r.randrange(1,MV+1)])
        sc.append(scen("r%d"%n,ops))
    # other forms of the header: never taken for the validator
    t=tags[0]; b=t.strip('"')
    odd=[t[:-1]+"x","x"+t[1:],b,"W/"+t,t+","+tags[1],tags[1]+", "+t,"*",'"'+b.upper()+'x"','"'+b[:-1]+'"',t+"x",t[:-1],"",'""'," ","x"*3000,"'"+b+"'",t.replace(b[0],"g",1),'"00000000"',t+t]
    for i,o in enumerate(odd):
        sc.append(Scn(w,"o%d"%i).conn().write("www/q%d.txt"%i,b"odd forms\n",times[0]).req(Req("/q%d.txt"%i),Req("/q%d.txt"%i,inm=o.strip()),Req("/q%d.txt"%i,inm=t),Req("/q%d.txt"%i)).pump())
    # the value of a header that has none is not taken from the one that follows
    for i,hs in enumerate([[("If-None-Match",""),("X-Tag",t)],[("if-none-match",""),("If-Match",t)],[("If-None-Match",""),("Host","h"),("ETag",t)],[("Cache-Control",""),("X-Tag",t)],[("X-Tag",t)]]):
        sc.append(Scn(w,"v%d"%i).conn().write("www/e%d.txt"%i,b"empty values\n",times[0]).req(Req("/e%d.txt"%i,headers=hs),Req("/e%d.txt"%i,inm=t),Req("/e%d.txt"%i,headers=hs)).pump())
    # the header does not leak into later requests, other files or other connections
    s=Scn(w,"x1").conn().write("www/y.txt",b"yyy\n",times[0]).req(Req("/y.txt",inm=t),Req("/y.txt"),Req("/s.txt"),Req("/y.txt",inm='"zzzzzzzz"'),Req("/y.txt",headers=[("if-NONE-match",t)],ka=True)).pump()
    s.reqs[0][-1].rec["inm"]=t
    sc.append(s)
    s=Scn(w,"x2").conn(0).conn(1).write("www/z.txt",b"zzz\n",times[0]).req(Req("/z.txt",inm=t),c=0).req(Req("/z.txt"),c=1).pump().req(Req("/z.txt"),c=0).req(Req("/z.txt",inm=t),c=1).pump(); sc.append(s)
    srv.conform(c,w,sc); w.close()
