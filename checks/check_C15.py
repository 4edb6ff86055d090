import texts
def check(c):
    r=c.rnd
    al=[b"a",b"b",b":",b"\n",b"\r"]
    ins=list(texts.strings(al,8 if c.thorough else 5))
    if not c.thorough: ins+=[b"".join(r.choice(al) for _ in range(r.choice([6,7,8,10]))) for _ in range(1500)]
    us=[b"root",b"a",b"b",b"user name",b"u"*60,b"\xc3\xa9",b"#x"]; ps=[b"",b"root",b"p",b"a b",b"p"*60,b"\xff",b"=;"]
    def line():
        k=r.random()
        if k<0.15: return r.choice([b"",b"noseparator",b":nouser",b"::",b" ",b"#comment"])
        return r.choice(us)+b":"+r.choice(ps)+(b":"+r.choice([b"",b"comment",b"more:fields:x"]) if r.random()<0.3 else b"")
    for _ in range(6000 if c.thorough else 1500):
        nl=r.choice([b"\n",b"\r\n"]); t=nl.join(line() for _ in range(r.choice([1,2,3,6,15]))); ins.append(t+(nl if r.random()<0.6 else b""))
    for n in (127,128,129,255,256,1023,1024,1025,5000):
        ins+=[b"u"*n+b":p\nb:c\n",b"u:"+b"p"*n+b"\nb:c",b"u:p:"+b"c"*n+b"\nb:c",b"x"*n+b"\nb:c\n",b"u"*n+b":"+b"p"*n]
    ins.append(b"".join(b"user%d:pw%d\n"%(i%90,i) for i in range(200)))
    texts.check(c,"pw",ins)
