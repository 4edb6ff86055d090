"""Histories of clients generated from the design of the server (spec/ServerMC.tla):
one for every transition of it and long random ones, replayed into the real server
with requests of every kind in the place of the abstract ones."""
import srv, check_S03, check_S13
from srv import Req, Bad, Scn, World
def cfg(nc,maxreq,kinds,leave,win,term,rec=True,sec=False,cap=0,next="Next",inv=True,live=False):
    return ("CONSTANTS Site <- MCSite\nFsBase <- MCBase\nNC = %d\nMaxReq = %d\nKinds = {%s}\nLeave = %s\nWin = %s\nTerm = %s\nMods = {\"m\"}\nRec = %s\nSec = %s\nCap = %d\n"
        %(nc,maxreq,", ".join('"%s"'%k for k in kinds),str(leave).upper(),str(win).upper(),str(term).upper(),str(rec).upper(),str(sec).upper(),cap)
        +("SPECIFICATION Fair\nPROPERTIES Answered Stopped Admitted\n" if live else "INIT Init\nNEXT %s\nVIEW View\n"%next)
        +("INVARIANTS Allowed NothingLeft\n" if inv else "")+"CHECK_DEADLOCK FALSE\n")
def design(c,*a,**k): c.mc("ServerMC",cfg(*a,**k),workers=8)
def live(c,*a,**k): c.mc("ServerMC",cfg(*a,rec=False,live=True,**k),workers=4)
def histories(c,*a,**k): return c.gen("ServerGen",cfg(*a,next="GNext",inv=False,**k))
def walks(c,n,length,*a,**k): return c.gen("ServerWalk",cfg(*a,next="WNext",inv=False,**k)+"CONSTANT WalkLen = %d\n"%length,simulate=n,depth=12*length)
def scenario(w,id,h,R,al,lazy=0.0,s=None,base=0,sigs=(15,)):
    """al: name -> maker of a request"""
    s=s or Scn(w,id); names=list(al); n={}; at={}; left={}
    for k,e in enumerate(h):
        o=e[0]
        if o=="term": s.rounds(R.choice([0,0,1,2,3])).kill(R.choice(sigs)); return s
        x=base+e[1]
        if o=="conn": s.conn(x)
        elif o=="begin":
            q=Bad(R.choice(check_S13.MAL)) if e[2]=="bad" else al[R.choice(names)](ka=e[2]=="keep")
            s.plan(x,q); left[x]=len(q.bytes)
            if e[2]!="bad": z=R.randrange(1,len(q.bytes)); s.send(z,x); left[x]-=z
        elif o=="end": s.send(left[x],x)
        elif o=="fin": s.fin(x)
        elif o=="rst": s.rst(x)
        elif o=="win": s.window({"on":-1,"off":0}.get(e[2],R.choice([1,60,200,30000])),x)
        if R.random()>=lazy: s.pump()
        elif R.random()<.4: s.rounds(1)
    return s.pump()
def alphabet(c,w,handler):
    if handler in ("dispatch","file"):
        al=dict(check_S03.alphabet(check_S03.first_etag(c,w)))
        if handler=="file": al={k:v for k,v in al.items() if k not in ("unauth","auth","gif","hello","postgif","post401","chunked0")}
        return al
    return {"x":lambda **k:Req("/x",**k),"p":lambda **k:Req("/y",method="POST",body=b"b"*5000,**k)}
def replay(c,hs,lazy=(0,0,.3,.7),handlers=("dispatch","file","default"),sigs=(15,),end=None,tls=None,cap=0):
    """every history at one of the handlers"""
    R=c.rnd; ws=[(h,check_S03.world(c,h,tls=tls) if h!="default" else World(c,h,tls=tls)) for h in handlers]; als=[alphabet(c,w,h) for h,w in ws]; todo=[(w,[]) for _,w in ws]
    for i,h in enumerate(hs):
        k=R.choices(range(len(ws)),[4,2,1][:len(ws)])[0]; w=ws[k][1]
        s=Scn(w,"turn%d%s"%(i,"-%d"%cap if cap else ""))
        if cap: s.limit(cap)
        s=scenario(w,s.id,h,R,als[k],R.choice(lazy),s=s,sigs=sigs)
        if end: end(s,h)
        todo[k][1].append(s)
    srv.conform_many(c,[t for t in todo if t[1]])
    for _,w in ws: w.close()
