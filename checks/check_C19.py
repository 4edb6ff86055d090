def check(c):
    r=c.rnd; t=c.thorough
    c.mc("DigestMC","DigestMC3.cfg" if t else "DigestMC.cfg")
    def data(n): return bytes(r.choice([0,255,128,97,r.randrange(256)]) if r.random()<.3 else r.randrange(256) for _ in range(n))
    def hexs(d): return "x"+d.hex()
    def cuts(n): return ",".join(map(str,sorted(r.randrange(n+1) for _ in range(r.choice([1,2,3,5])))))
    sc=[]
    # every length over two blocks and the border lengths of more; each also fed in parts
    lens=list(range(0,131))+[183,184,191,192,193,247,248,256,319,320,1000,1023,1024]
    for rep in range(8 if t else 1):
        for n in lens:
            for a in ("md5","sha1"): sc.append([a,hexs(data(n))+":"+cuts(n)])
            sc.append(["crc",hexs(data(n))])
    # two parts around every border of a block; byte by byte; empty parts
    for a in ("md5","sha1"):
        for n in ((55,56,64,119,120,128,150) if t else (64,130)):
            for k in sorted(set(list(range(0,n+1)) if t else [0,1,n-1,n]+[x for b in (55,56,63,64,65,119,128) for x in (b,) if x<=n])):
                sc.append([a,hexs(data(n))+":%d,%d"%(k,k)])
        for n in (65,130): sc.append([a,hexs(data(n))+":"+",".join(map(str,range(1,n)))])
        for d in (b"\0"*64,b"\xff"*64,b"\x80"*56,b"\0"*119,b"abc"): sc.append([a,hexs(d)+":"])
    # every byte value for the table
    for b in range(256): sc.append(["crc",hexs(bytes([b]))]); sc.append(["crc",hexs(data(3)+bytes([b]))])
    # keys of every length around the box, with high and repeated bytes
    for k in ([1,2,3,5,8,13,16,40,127,128,255,256,257,300] if not t else range(1,300)):
        key=bytes(r.choice([1,127,128,200,255]) if r.random()<.4 else r.randrange(1,256) for _ in range(k)); n=r.choice([1,10,255,256,257,300,520])
        sc.append([r.choice(["rc4","rc4i"]),hexs(key),hexs(data(n))+":"+cuts(n)])
        sc.append(["crypt",hexs(key),hexs(bytes(r.randrange(1,256) for _ in range(r.choice([0,1,5,256,300]))))])
    sc.append(["rc4",hexs(b"Key"),hexs(b"Plaintext")+":"+",".join(map(str,range(1,9)))])
    c.note("inputs",{"scenarios":len(sc)})
    c.assume.append("keys are not empty; lengths below 2^28 bytes")
    c.unit_validate("u_digest",[("h%d"%i,s) for i,s in enumerate(sc)],"DigestTrace",chunk=120)
