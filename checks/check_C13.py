# byte sizes of a unit: plain, odd, and around the memory stream's growth step (4096)
UNITS=[1,7,1000,1365,1366,2048,4095,4096,4097,9000]
def toks(g):
    t=[]
    for op in g:
        if op[0]=="write": t.append("write:x"+"".join(map(str,op[1])))
        else: t.append(":".join(map(str,op)))
    return t
GEN="VIEW View\nACTION_CONSTRAINT Emit\nCONSTRAINT Bound\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPROPERTIES WriteExact\nCONSTANTS Modes={%s}\nMaxLen=%d\nMaxPos=%d\n"
def fits(g,mx):
    return all(op[0]!="seek" or op[1]<=mx for op in g)
def check(c):
    sc=[]; r=c.rnd; n=0
    t=c.thorough
    mem=c.gen("StreamGen",GEN%('"mem"',4,5)); fil=c.gen("StreamGen",GEN%('"w+","r+","r","w"',3 if t else 2,4 if t else 3))
    tail=["size","tell","seek:0","read:9","read:1","tell"]
    for i,g in enumerate(mem):
        x=toks(g); closed=g[-1][0]=="close"
        for U in (UNITS if t else [1,UNITS[1+i%(len(UNITS)-1)]]):
            n+=1; sc.append(("m%d"%n,["mem",str(U)]+x+(["open:mem"] if closed else [])+tail))
    for i,g in enumerate(fil):
        x=toks(g); closed=g[-1][0]=="close"; last=[op[1] for op in g if op[0]=="open"][-1]
        y=[] if closed else ["close"]
        for U in ([1,7,4096] if t else [[1,7,4096,1000][i%4]]):
            n+=1; sc.append(("f%d"%n,["file",str(U)]+x+y+["open:r"]+tail))
    # long histories
    for j in range(400 if t else 120):
        m=j%2==0; mode="mem" if m else r.choice(["w+","r+"]); x=["open:"+mode]
        for _ in range(r.choice([10,30,80])):
            k=r.random()
            if k<0.4: x.append("write:x"+"".join(r.choice("123") for _ in range(r.choice([0,1,1,2,5,9]))))
            elif k<0.6: x.append("read:%d"%r.choice([0,1,2,5,20]))
            elif k<0.75: x.append("seek:%d"%r.choice([0,1,3,8,15,30]))
            elif k<0.8: x.append("flush")
            elif k<0.9: x.append("tell")
            else: x.append("size")
            if r.random()<0.02: x+=["close","open:"+mode]
        n+=1; sc.append(("r%d"%n,["mem" if m else "file",str(r.choice(UNITS))]+x+tail))
    c.note("histories",{"memory":len(mem),"file":len(fil),"units":UNITS})
    c.assume.append("operations on a stream that is not open are outside the property; a memory stream starts empty at each open")
    c.unit_validate("u_stream",sc,"StreamTrace",consts='CONSTANTS Modes={"mem","w+","r+","r","w"}\n')
