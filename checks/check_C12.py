import itertools
def check(c):
    r=c.rnd; t=c.thorough
    c.mc("Huffman","Huffman.cfg")
    # --- bit streams
    sc=[]; n=0
    def vals(w): return sorted({0,1%(2**w),2**w-1,2**(w-1),(0xA5C3>>(16-w)),0x5A3C>>(16-w)})
    def one(ws,kind,pre=None):
        t=["bits",kind]
        if pre: t.append("fill:%d:%d:%d"%pre)
        for w,v in ws: t.append("%s:%d:%d"%("w" if w<=8 and r.random()<0.7 else "W",w,v))
        t.append("stored")
        if pre: t.append("rfill")
        for w,v in ws: t.append("%s:%d"%("r" if w<=8 and r.random()<0.7 else "R",w))
        return t
    for ln in (1,2,3):
        for ws in itertools.product(range(1,17),repeat=ln):
            if ln==3 and not t and r.random()<0.75: continue
            n+=1; sc.append(("b%d"%n,one([(w,r.choice(vals(w))) for w in ws],"vf"[n%5==0])))
    def back(tk,total,upto):
        # read in steps of 1..16 bits, going back now and then by up to 16 bits
        pos=total-upto; x=[]
        while pos<total:
            w=min(r.randrange(1,17),total-pos); x.append("R:%d"%w); pos+=w
            if r.random()<0.5:
                k=min(r.randrange(1,17),pos); x.append("back:%d"%k); pos-=k
            if len(x)>60: break
        return tk+x
    for j in range(600 if t else 150):
        ws=[]
        for _ in range(r.choice([4,10,25])):
            w=r.randrange(0,17); ws.append((w,r.randrange(2**w)))
        tk=one(ws,r.choice("vf")); n+=1; sc.append(("l%d"%n,tk))
        n+=1; sc.append(("k%d"%n,back([x for x in tk if x[0] in "bwWsvf" ],sum(w for w,_ in ws),sum(w for w,_ in ws))))
    # around the buffer's size (4096 bytes) and its multiples
    for base in (4096,8192):
        for d in (range(-4,4) if t else (-3,-2,-1,0,1)):
            for off in range(0,8):
                if not t and (off+d)%3: continue
                fw=8
                pre=(base+d,fw,0xB7); 
                ws=([(off,r.randrange(2**off))] if off else [])+[(w,r.randrange(2**w)) for w in [r.randrange(1,17) for _ in range(8)]]
                tk=one(ws,r.choice("vf"),pre); n+=1; sc.append(("p%d"%n,tk))
                tl=sum(w for w,_ in ws); k=tk.index("rfill")
                n+=1; sc.append(("q%d"%n,back(tk[:k+1],pre[0]*fw+tl,tl)))
                # each way of going back over the border
                for w in ((9,11,13,16) if t else (11,16)):
                    x=tk[:k+1]
                    for i in range(tl//w):
                        x=x+["R:%d"%w,"back:%d"%r.randrange(1,w)]
                    n+=1; sc.append(("s%d"%n,x))
    for k,w,v in ((4681,7,0x55),(2979,11,0x2a3),(2521,13,0x1234),(2048,16,0xBEEF),(2185,15,0x7001),(32769,1,1),(10923,3,5)):
        for d in (0,-1,1,2):
            n+=1; sc.append(("w%d"%n,one([(5,17),(16,0xC0DE),(11,1025),(3,2)],"vf"[n%2],(k+d,w,v))))
    c.note("bit_streams",len(sc))
    c.unit_validate("u_stream",sc,"BitsTrace",tmo=60)
    # --- Huffman
    ts=[bytes(x) for ln in range(0,(7 if t else 6)) for x in itertools.product(b"\x00a\xff",repeat=ln)]
    ts+=[bytes(x) for x in itertools.product(b"abcd",repeat=5)][::1 if t else 7]
    for _ in range(1500 if t else 300):
        al=bytes(r.sample(range(256),r.choice([1,2,3,5,8,20]))); k=r.choice([1,2,5,20,60,200])
        ts.append(bytes(r.choice(al[:1+int(r.random()**2*len(al))]) for _ in range(k)))
    ts.append(bytes(range(256))); ts.append(bytes(range(128,256))*2)
    sc=[]
    for i in range(0,len(ts),5): sc.append(("h%d"%i,["huff","vf"[(i//5)%6==0]]+["x"+x.hex() for x in ts[i:i+5]]))
    big=[]
    def rec(fr): return "big"+":".join("%d,%d"%(s,k) for s,k in fr)
    def fib(n):
        a=[1,1]
        while len(a)<n: a.append(a[-1]+a[-2])
        return a
    for m in (5,10,15,16,17,18,20,22)+((24,26) if t else ()): big.append(rec([(r.randrange(0,8)*32+i,f) for i,f in enumerate(fib(m))]))
    for m in (16,17,18): big.append(rec([(i+65,2**i) for i in range(m)]))
    big.append(rec([(65,4096)])); big.append(rec([(65,4095),(66,1)])); big.append(rec([(0,32768)])); big.append(rec([(0,32767),(1,1),(2,1)]))
    big.append(rec([(i,40) for i in range(256)])); big.append(rec([(i,1+i*i//40) for i in range(256)]))
    for _ in range(120 if t else 40):
        ss=r.sample(range(256),r.choice([2,3,13,14,16,40,120])); x=r.choice([1.1,1.4,1.62,1.9]); f=1.0; fr=[]
        for s in ss: fr.append((s,max(1,int(f)))); f=min(f*x,40000)
        big.append(rec(fr))
    for i,b in enumerate(big): sc.append(("g%d"%i,["huff","vf"[i%4==0],b]))
    # several texts coded with the table of the first one
    again=0
    for i in range(400 if t else 120):
        al=bytes(r.sample(range(256),r.choice([1,2,3,5,9]))); first=bytes(r.choice(al) for _ in range(r.choice([1,3,9,40])))
        more=[bytes(r.choice(first) for _ in range(r.choice([0,1,2,7,30,90]))) for _ in range(r.choice([1,2,3]))]
        again+=len(more); sc.append(("a%d"%i,["huff","vf"[i%5==0],"x"+first.hex()]+["=x"+x.hex() for x in more]))
    for i,b in enumerate(big[::4]):
        fr=[x.split(",") for x in b[3:].split(":")]; r.shuffle(fr); fr=fr[:r.randrange(1,len(fr)+1)]
        sc.append(("b%d"%i,["huff","v",b,"="+rec([(int(s),min(9000,r.choice([1,int(k),4096,4097]))) for s,k in fr]),"=x","="+b])); again+=3
    c.note("texts",{"coded again":again,"small":len(ts),"large":len(big)})
    c.unit_validate("u_stream",sc,"HuffmanTrace",tmo=60)
