import itertools
AL=b"ilde01:-a "
def enc(v):
    if isinstance(v,int): return b"i%de"%v
    if isinstance(v,bytes): return b"%d:%s"%(len(v),v)
    if isinstance(v,list): return b"l"+b"".join(map(enc,v))+b"e"
    return b"d"+b"".join(enc(k)+enc(x) for k,x in v.items())+b"e"
def flat(v):
    if isinstance(v,int): return ["i%d"%v]
    if isinstance(v,bytes): return ["s"+v.hex()]
    if isinstance(v,list): return ["l"]+[t for x in v for t in flat(x)]+["e"]
    return ["d"]+[t for k,x in v.items() for t in flat(k)+flat(x)]+["e"]
def check(c):
    r=c.rnd; t=c.thorough
    c.mc("BencodingMC","BencodingMC.cfg")
    ints=[0,1,-1,7,10,-10,99,100,12345,2147483647,-2147483648,2147483646,-2147483647]
    strs=[b"",b"a",b"e",b"i1e",b"1:",b"\0",b"\xff\x80",b" ",b"-",b"0123456789",b"l"*99,b"d"*100]
    keys=[b"",b"a",b"b",b"info",b"e",b"1",b"zz",b" ",b"\xff",b"length",b"k"*40]
    def val(d):
        k=r.random()
        if d==0 or k<0.25: return r.choice(ints) if r.random()<0.7 else r.randrange(-2**31,2**31)
        if k<0.5: return r.choice(strs) if r.random()<0.7 else bytes(r.randrange(256) for _ in range(r.choice([1,2,9,10,11,99,100,101])))
        n=r.choice([0,0,1,1,2,3,5])
        if k<0.75: return [val(d-1) for _ in range(n)]
        ks=r.sample(keys,n); return {x:val(d-1) for x in ks}
    # --- documents: every short one, and corruptions of encoded values
    docs=[bytes(x) for n in range(0,6 if t else 5) for x in itertools.product(AL,repeat=n)]
    fixed=[b"i-0e",b"i00e",b"i01e",b"i-01e",b"ie",b"i-e",b"i--1e",b"i1-e",b"i+1e",b"i 1e",b"i1 e",b"i2147483648e",b"i-2147483649e",b"i99999999999999999999999e",b"i4294967297e",b"i9223372036854775808e",b"i18446744073709551617e",
      b"i2147483647e",b"i-2147483648e",b"00:",b"01:a",b"1:",b"0:",b"0:a",b"2:a",b"-1:a",b"99999999999999999999:a",b"18446744073709551617:a",b"4294967297:a",b":a",b"1a:b",b"1",b"12",
      b"d1:ae",b"d1:a1:be",b"d1:a1:b1:ae",b"d1:a1:b1:a1:ce",b"di1ei2ee",b"dl1:ae1:be",b"dde1:be",b"d1:ai1e1:bl1:cd1:di4eeee",b"d1:ale1:bdee",b"d0:0:e",b"d3:a\0bi1ee",b"d1:b1:x1:a1:ye",
      b"lee",b"le1:a",b"dee",b"e",b"ee",b"i1ei2e",b"i1e\n",b"i1e ",b" i1e",b"l i1e i2e e",b"1: ",b"l1:a",b"l1:ae e",b"d1:ad1:bd1:cd1:dd1:ei1eeeeee",b"ld1:ai1eelee",b"d1:al1:bi2eee",b"d1:ali1ee1:bi2ee",b"d1:ad1:bi1ee1:ci2ee",b"d1:ad1:bi1eee",b"d1:a1:b1:c"]
    for x in fixed: docs+=[x,x]
    base=[enc(val(r.choice([1,2,3,4]))) for _ in range(150 if t else 60)]
    base+=[b"d4:infod6:lengthi1e4:name1:ae8:announce3:urle",b"l"*60+b"e"*60,b"d1:a"*40+b"i0e"+b"e"*40,enc([b"x"*1000]),enc(list(range(100)))]
    docs+=base
    for b in base[:80 if t else 40]:
        pos=range(len(b)) if len(b)<60 else sorted(r.sample(range(len(b)),60))
        for i in pos: docs.append(b[:i])
        for i in pos if t else sorted(r.sample(list(pos),min(len(pos),25))):
            docs.append(b[:i]+bytes([r.choice(b"ilde019:-a \0\xff")])+b[i+1:]); docs.append(b[:i]+b[i+1:]); docs.append(b[:i]+bytes([r.choice(b"ilde01:")])+b[i:])
    # --- values
    vals=[val(r.choice([0,1,2,3,4,5])) for _ in range(3000 if t else 800)]
    vals+=[[],{},[[]],[{}],{b"":[]},{b"":{}},{b"a":b""},[b""],[b"",b""],0,b"",{b"a":{b"a":{b"a":1}}},[[[[[[[[1]]]]]]]],{b"a":[{b"b":[{b"c":[]}]}],b"d":2}]
    vals+=[{b"k%d"%i:i for i in range(60)},{b"%c"%i:[b"%c"%i] for i in range(1,256)} ]
    def sortd(v): return {k:sortd(v[k]) for k in sorted(v)} if isinstance(v,dict) else [sortd(x) for x in v] if isinstance(v,list) else v
    sc=[]; per=40
    for i in range(0,len(docs),per): sc.append(("d%d"%i,["dec"]+["x"+d.hex() for d in docs[i:i+per]]))
    for i in range(0,len(vals),10):
        sc.append(("v%d"%i,["enc"]+[",".join(flat(v)) for v in vals[i:i+10]]))
        sc.append(("h%d"%i,["ench"]+[",".join(flat(sortd(v))) for v in vals[i:i+10]]))
    c.note("inputs",{"documents":len(docs),"values":len(vals)})
    c.assume.append("integers of 32 bits; map keys without zero bytes (others are refused); spaces between tokens may be skipped or refused")
    c.unit_validate("u_benc",sc,"BencodingTrace")
