def check(c):
    c.mc("PoolImpl","PoolImpl.cfg")
    r=c.rnd; sc=[]; n=0
    CH=10240
    # around the chunk borders of the pool: full chunks, frees in every position, growth and shrinking
    for sz in (1,8,24,40):
        sc+=[("p%d"%sz,[sz,"alloc:%d"%CH,"free:6:6","alloc:1","free:101:101","alloc:1","free:1:1","free:%d:%d"%(CH,CH),"alloc:2","alloc:1"]),
         ("q%d"%sz,[sz,"alloc:%d"%(2*CH),"free:%d:%d"%(CH+1,CH+1),"alloc:1","free:5:9:2","alloc:2","alloc:2","free:1:%d"%CH,"alloc:%d"%CH,"alloc:3"]),
         ("s%d"%sz,[sz,"alloc:%d"%(4*CH+3),"free:1:%d"%(3*CH),"alloc:10","free:%d:%d"%(3*CH+1,4*CH+3),"alloc:%d"%(CH+5)]),
         ("u%d"%sz,[sz,"alloc:3","free:3:1:-1","alloc:2","free:1:2","alloc:%d"%(CH+1),"free:%d:1:-1"%(CH+1),"alloc:5","free:1:5","alloc:1"])]
    for j in range(24 if c.thorough else 8):
        t=[r.choice([1,8,16,24,40])]; live=0
        for x in range(14):
            if r.random()<0.55: t.append("alloc:%d"%r.choice([1,1,2,5,100,CH-2,CH,CH+1]))
            else:
                a=r.randrange(1,3*CH); t.append("free:%d:%d:%d"%(a,r.choice([a,a+1,a+10,a+CH]),r.choice([1,1,2,3])))
        sc.append(("r%d"%j,t))
    c.unit_validate("u_pool",sc,"PoolTrace")
    # array lists: every index below the initial size, all element sizes around the pointer size
    al=[]
    for es in (1,2,3,4,5,7,8,9,12,16,24,33):
        for cap in (1,2,3,8,64,0):
            N=cap or 16; t=["alist",es,cap]
            vals={i:"x"+bytes(r.randrange(256) for _ in range(es)).hex() for i in range(min(N,40))}
            ix=list(vals); r.shuffle(ix)
            t+=["set:%d:%s"%(i,vals[i]) for i in ix]+["get:%d"%i for i in vals]
            for x in range(20):
                i=r.choice(ix); t.append(r.choice(["get:%d"%i,"set:%d:x%s"%(i,bytes(r.randrange(256) for _ in range(es)).hex())]))
            t+=["get:%d"%i for i in vals]
            n+=1; al.append(("a%d"%n,t))
    c.unit_validate("u_struct",al,"ArrayListTrace")
