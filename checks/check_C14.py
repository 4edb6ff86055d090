import itertools
def check(c):
    c.mc("Quicksort","Quicksort.cfg")
    sc=[]; n=0
    # every sequence of the model's bounds (values distinguishable although equal for the comparison)
    for ln in range(0,(8 if c.thorough else 6)):
        for s in itertools.product((1,2,3),repeat=ln):
            n+=1
            if ln>=6 and n%5 and ln==7: continue
            vs=[v*100+i for i,v in enumerate(s)]
            sc.append(("t%d"%n,["sort","vrzi"[n%4],0,ln]+vs))
            if n%3==0: sc.append(("l%d"%n,["list","quiet"]+["app:%d"%(v or 1) for v in vs]+["loud","sort:"+"vrzi"[n%4],"seq"]))
    r=c.rnd
    for j in range(300 if c.thorough else 80):
        ln=r.choice([2,3,7,16,50,150]); m=r.choice([1,2,5,40,5000])
        vs=[r.randrange(1,m+1)*100+r.randrange(0,100) for _ in range(ln)]
        k=j%6
        if k==0: vs.sort()
        if k==1: vs.sort(reverse=True)
        lo=r.choice([0,0,0,r.randrange(0,ln)]); hi=r.choice([ln,ln,ln,r.randrange(lo,ln+1)])
        sc.append(("r%d"%j,["sort",r.choice("vrzi"),lo,hi]+vs))
        if k==2: sc.append(("rl%d"%j,["list","quiet"]+["app:%d"%v for v in vs]+["loud","sort:"+r.choice("vrzi"),"seq","quiet","pop","popt","loud","sort:v"]))
    a=[x for x in sc if x[1][0]=="sort"]; b=[x for x in sc if x[1][0]=="list"]
    c.unit_validate("u_struct",a,"SortTrace")
    c.unit_validate("u_struct",b,"ListTrace")
