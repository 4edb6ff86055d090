GEN="SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS NW = %d\nScript <- %s\nSpurious = FALSE\nHist = TRUE\n"
def check(c):
    r=c.rnd; t=c.thorough
    c.mc("MCThreadPool","MCThreadPool.cfg")
    if t: c.mc("MCThreadPool","SPECIFICATION Fair\nCONSTANTS NW = 3\nScript <- Script33\nSpurious = TRUE\nHist = FALSE\nINVARIANTS Once Mutex NoneForgotten\nPROPERTIES Refines Live\nCHECK_DEADLOCK FALSE\n")
    sc=[]
    def add(*tok): sc.append(("s%d"%len(sc),list(tok)))
    # the schedules of the design, one per transition
    for nw,name,steps in ((2,"Script11",["i:1","i:2","+"]),(1,"Script12",["i:1,2","i:3","+"]),(2,"Script22",["i:1,2","i:3","+"])):
        g=c.gen("MCThreadPool",GEN%(nw,name))
        if len(g)>(20000 if t else 2500): g=r.sample(g,20000 if t else 2500)
        for h in g: add(nw,"s"+",".join(map(str,h)),*steps)
    # random schedules down to single memory accesses
    shapes=[["i:1,2,3","i:4,5,6","+"],["i:1","i:2","i:3","i:4","+"],["i:1,1,1,1","+"],["+","i:1","+","i:2,3","+"],
        ["i:1g,2","i:3","+","o:1","+"],["i:1g,2g,3,4","+","o:2","+","o:1","+"],["i:1g","+","i:2,3","+","i:4","+","o:1","+"],
        ["i:1s5,2s6","i:3","+"],["i:1s2,2s3,4","+","i:7","+"],["i:1,2,3,4,5,6,7,8","+","i:9,10,11,12","i:13,14","+"],["i:1g,2g,3g","+","i:4,5","+","o:3","o:1","+","o:2","+"],
        ["+"],["i:1","+","i:2","+","i:3","+","i:4","+"]]
    for k in range(40000 if t else 5000):
        s=shapes[k%len(shapes)]
        add(r.choice([1,1,2,2,3,4]) if "g" not in "".join(s) else r.choice([1,2,3,4]),"r%d:%d:%d"%(r.randrange(1<<40),r.choice([2,10,30,100,300,600,1000]),r.choice([0,0,0,5,50])),*s)
    n={i:int(t[0]) for i,t in sc}
    c.assume.append("threads are interleaved at synchronisation calls and memory accesses, in sequential consistency; deleting a pool is not covered")
    c.unit_validate("u_tpool",sc,"ThreadPoolTrace",san="race",post=lambda x:{"id":x["id"],"n":n[x["id"]],"ev":x["ev"]})
