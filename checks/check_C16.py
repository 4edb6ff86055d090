import itertools
def check(c):
    r=c.rnd; sc=[]; n=0
    pieces=["x","x61","x6263","x00","x6100ff"]
    kinds=["s","_s","l","_l","t","_t"]
    def piece(k,h):
        z=k.lstrip("_")
        if z=="s": return "%s:%s"%(k,h.replace("00","41"))
        m=(len(h)-1)//2
        return "%s:%s:%d"%(k,h,r.choice([m,m,max(0,m-1),0]))
    for ln in range(0,4):
        for ks in itertools.product(kinds,repeat=ln):
            n+=1
            if ln==3 and n%2 and not c.thorough: continue
            t=["sbuf"]+[piece(k,r.choice(pieces)) for k in ks]+["join"]
            if n%3==0: t+=[piece(r.choice(kinds),"x7a7a"),"join"]
            sc.append(("s%d"%n,t))
    for ln in range(0,5):
        for ks in itertools.product(["k","r","_r"],repeat=ln):
            n+=1; t=["lbuf"]
            for k in ks:
                h=r.choice(pieces); m=(len(h)-1)//2; t.append("%s:%s:%d"%(k,h,r.choice([m,m,max(0,m-1)])))
            sc.append(("l%d"%n,t+["join"]+(["r:x5a","join"] if n%2 else [])))
    for j in range(40 if c.thorough else 14):
        k=r.choice(["sbuf","lbuf"]); t=[k]
        for x in range(r.choice([5,40,120])):
            h="x"+bytes(r.randrange(256) for _ in range(r.choice([0,1,3,20,200]))).hex()
            t.append(piece(r.choice(kinds),h) if k=="sbuf" else "%s:%s"%(r.choice(["k","r","_r"]),h))
            if r.random()<0.05: t.append("join")
        sc.append(("r%d"%j,t+["join"]))
    c.unit_validate("u_struct",sc,"StrBufTrace")
