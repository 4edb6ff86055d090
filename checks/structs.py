"""scenario builders shared by the checks of the data structures"""
def toks(h): return [":".join(map(str,op)) for op in h]
GEN="VIEW View\nACTION_CONSTRAINT Emit\nCONSTRAINT Bound\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
def map_generated(c):
    """one test per transition of the map's state graph"""
    return c.gen("MapGen",GEN+"INVARIANT OrdIsDomain\nPROPERTIES SetIsVisible OrderStable\nCONSTANTS\nKeys={\"k0\",\"k1\",\"k2\",\"k3\"}\nValues={1,2}\nMaxKeys=4\n")
# concrete keys for the abstract ones: plain, sharing a slot at every table size, extreme, zero
KEYSETS={"i":[["i0","i1","i2","i3"],["i5","i1029","i4101","i16389"],["i18446744073709551615","i0","i9223372036854775808","i1024"],["i4","i8","i16","i64"]],
 "s":[["s61","s62","s6161","s616161"],["s","s61","s61c3ff","s20"],["sff","s80","sc3a9","s7f"],["s"+"61"*300,"s"+"61"*299,"s"+"61"*299+"62","s61"]],
 "c":[["c7.61","c7.62","c7.63","c7.6161"],["c3.61","c7.62","c3.62","c7.61"],["c0.61","c1024.61","c0.62","c4096.61"]]}
def map_scenarios(c,mode):
    sc=[]; n=0
    gen=map_generated(c)
    for kind,sets in KEYSETS.items():
        for si,keys in enumerate(sets):
            for g in gen:
                n+=1
                if si and n%3 and not c.thorough: continue
                t=[mode,str([0,1,2,3,4,7][n%6])]
                for op in g:
                    k=keys[int(op[1][1])]
                    t.append("set:%s:%d"%(k,op[2]) if op[0]=="set" else "get:%s"%k)
                t+=["get:%s"%k for k in keys]+["iter"]+(["keys"] if kind=="i" else [])+(["reiter"] if n%4==0 else [])
                sc.append(("t%d"%n,t))
    # long histories: growth, overwriting, many collisions, absent keys
    r=c.rnd
    for j in range(60 if c.thorough else 24):
        kind="isc"[j%3]; nk=r.choice([3,10,20,60,150,300] if c.thorough else [3,10,20,60,120]); ks=[]
        while len(ks)<nk:
            if kind=="i": k="i%d"%r.choice([r.randrange(64),r.randrange(50)*1024,r.randrange(2**64),r.randrange(50)*4096])
            elif kind=="s": k="s"+bytes(r.randrange(1,256) for _ in range(r.choice([0,1,1,2,3,8,40]))).hex()
            else: k="c%d.%s"%(r.choice([0,1,5,1024,2048]),bytes(r.randrange(97,123) for _ in range(r.choice([1,2,3]))).hex())
            if k not in ks: ks.append(k)
        t=[mode,str(r.choice([0,1,1,2,3,4,5,8,16,64]))]
        for x in range(r.choice([nk,2*nk,3*nk])):
            k=r.choice(ks)
            t.append("set:%s:%d"%(k,r.randrange(0,99999)) if r.random()<0.7 else "get:%s"%k)
            if r.random()<0.01: t.append("iter")
        t+=["get:%s"%k for k in ks]+["iter"]+(["keys"] if kind=="i" else [])
        sc.append(("r%d"%j,t))
    return sc
