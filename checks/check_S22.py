"""the main process and its workers"""
from srv import *
import srv, check_S03, workers, turns
SIGS=[15,2,1,3]
def cfg(n,most=64,longest=0,live=False):
    s="CONSTANTS Asked = %d\nMost = %d\n"%(n,most)
    if longest: return s+"Longest = %d\nINIT GInit\nNEXT GNext\nINVARIANT Say\nCHECK_DEADLOCK FALSE\n"%longest
    return s+"SPECIFICATION WSpec\nINVARIANTS NobodyLeft OnlyWhenAsked SeenAfterEnd\nCHECK_DEADLOCK FALSE\n"+("PROPERTIES AllEnd OneEnds\n" if live else "")
def world(c,n,by="args"):
    return World(c,"dispatch",locs=check_S03.LOCS,files=check_S03.FILES,ini_extra="workers=%s\n"%n if by=="ini" else "",args=("--port=8080","--no-log")+(("--workers=%s"%n,) if by=="args" else ()),san="prefork")
def serve(s,R,al,x):
    """a client of this process"""
    s.conn(x)
    for _ in range(R.choice([1,1,1,2])):
        q=R.choice(al)[1](ka=R.random()<.6); s.plan(x,q); a=R.random()
        if a<.6: s.send(None,x).pump()
        elif a<.8: s.send(R.randrange(1,len(q.bytes)),x).pump().send(None,x).pump()
        elif a<.9: s.window(R.choice([0,1,150]),x).send(None,x).rounds(R.choice([1,2,9])); break
        else: s.send(R.randrange(0,len(q.bytes)),x).rounds(1); break
        if not q.rec["ka"]: break
    if R.random()<.2: s.theirs().pump()
def scenario(w,id,n,h,R,al,early=0):
    m=workers.Multi(w,id,n); x=0
    if early: m.p[0].armed=True; m.p[0].s.kill_at(early,R.choice(SIGS))
    else:
        for o,p in h:
            x+=1
            if o=="serve": m.step(p,lambda s:serve(s,R,al,x))
            elif R.random()<.3 and p==0:
                # in the midst of something
                def ask(s): s.kill_at(R.choice([1,2,3,5,8,12]),R.choice(SIGS)); serve(s,R,al,400+x); s.rounds(2).conn(99).pump(); s.late()
                m.p[p].armed=True; m.step(p,ask,True)
            else: m.step(p,lambda s:s.rounds(R.choice([0,0,1])).kill(R.choice(SIGS)),True)
        asked={p for o,p in h if o=="ask"}
        for s in m.p[1:]:
            if s.k in asked: continue
            # at what moment of its own work a worker takes the signal
            if R.random()<.6: s.told_at(R.choice([1,1,2,3,4,6,9,14,20]))
            for j in range(R.choice([0,0,1,2])): serve(s,R,al,200+j)
    return m
def check(c):
    R=c.rnd
    for n,most in ((1,64),(3,64),(3,2),(4,64))+(((5,64),) if c.thorough else ()): c.mc("Workers",cfg(n,most,live=n<4))
    al=None
    for n,longest,by,k in ((1,4,"args",80),(2,4,"ini",200),(3,4,"args",300),(5,5,"ini",60)):
        w=world(c,n,by); al=check_S03.alphabet(check_S03.first_etag(c,w))
        hs=c.gen("WorkersGen",cfg(n,longest=longest)) if n<5 else c.gen("WorkersGen",cfg(n,longest=12),simulate=k*3,depth=40)
        hs=R.sample(hs,min(len(hs),k*(8 if c.thorough else 1)))
        ms=[scenario(w,"w%d-%d"%(n,i),n,h,R,al) for i,h in enumerate(hs)]
        ms+=[scenario(w,"e%d-%d"%(n,i),n,[],R,al,early=1+i%(n+1)) for i in range(3*n)]
        workers.conform(c,w,ms,n); w.close()
    # as many as the configuration may ask for
    for n in (0,63,64,65,100,255) if c.thorough else (64,65,255):
        w=world(c,n,R.choice(["args","ini"])); m=min(n,64)
        ms=[scenario(w,"m%d-%d"%(n,i),m,[["serve",R.randrange(m+1)] for _ in range(6)]+[["ask",0]],R,al) for i in range(2)]
        workers.conform(c,w,ms,n); w.close()
    c.assume.append("the kernel's choice of the process that accepts a connection is the history's")
    c.assume.append("a signal is taken where the history says: between two system calls of the process")
