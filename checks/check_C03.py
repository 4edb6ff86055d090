import structs
def check(c):
    c.mc("ListImpl","ListImpl.cfg")
    gen=c.gen("ListGen",structs.GEN+"CONSTANTS\nValues=%s\nMaxLen=%d\n"%(("{101,102,201}",4) if c.thorough else ("{101,102}",4)))
    sc=[("t%d"%n,["list"]+structs.toks(g)+[["get:0","popt","app:7"],["nput","pop","pop"],["sort:v","peekt","appf:9"],["clear","pop","popt","app:5"],["remi:0","npopt","nputf"]][n%5]) for n,g in enumerate(gen)]
    r=c.rnd
    for j in range(200 if c.thorough else 60):
        t=["list"]; n=0
        for x in range(r.choice([20,60,200])):
            v=r.randrange(1,6)*100+r.randrange(0,3)
            op=r.choices(["app:%d"%v,"appf:%d"%v,"appi:%d:%d"%(v,r.randrange(0,8)),"remv:%d"%v,"remi:%d"%r.randrange(0,12),"get:%d"%r.randrange(0,12),"pop","popt","peek","peekt","clear","sort:"+r.choice("vzir"),"seq","npop","npopt","nrem:%d"%r.randrange(0,8),"nput","nputf","nget:%d"%r.randrange(8)],
              [9,6,5,4,3,3,3,3,1,1,0.4,1,1,2,2,2,4,3,1])[0]
            t.append(op)
        sc.append(("r%d"%j,t))
    # big lists: growth and order at scale, sorted and drained
    for j,n in enumerate([300,1000] if not c.thorough else [300,1000,3000]):
        vs=[r.randrange(1,2000)*1 for _ in range(n)]
        sc.append(("b%d"%j,["list","quiet"]+["%s:%d"%(r.choice(["app","app","appf"]),v) for v in vs]+["loud","sort:i","quiet"]+["pop","popt"]*20+["loud","seq"]))
    c.unit_validate("u_struct",sc,"ListTrace")
