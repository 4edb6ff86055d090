import structs
def check(c):
    gen=c.gen("PriorityQueueGen",structs.GEN+"INVARIANT Agree\nCONSTANTS\nValues={100,101,200,201,300}\nMaxLen=%d\n"%(6 if c.thorough else 4))
    sc=[];cmps={}
    for n,g in enumerate(gen):
        k="vrzi"[n%4] if n%3==0 else "v"
        cmps["t%d"%n]=k; sc.append(("t%d"%n,["pq",k]+structs.toks(g)+["pop"]*(n%5)+["push:150"]+["pop"]*5))
    r=c.rnd
    for j in range(150 if c.thorough else 60):
        k="vrzi"[j%4]; t=["pq",k]; p=r.choice([0.4,0.5,0.6,0.8])
        for x in range(r.choice([20,80,300])): t.append("push:%d"%r.randrange(1,r.choice([3,20,900])*100) if r.random()<p else "pop")
        t+=["pop"]*r.choice([5,100,400]); cmps["r%d"%j]=k; sc.append(("r%d"%j,t))
    c.unit_validate("u_struct",sc,"PriorityQueueTrace",post=lambda r:{"id":r["id"],"cmp":cmps[r["id"]],"ev":r["ev"]})
