import texts
def check(c):
    r=c.rnd
    al=[b"a",b"[",b"]",b";",b"=",b" ",b"\n",b"\r"]
    ins=list(texts.strings(al,6 if c.thorough else 4))
    if not c.thorough: ins+=[b"".join(r.choice(al) for _ in range(r.choice([5,6,7,8]))) for _ in range(2500)]
    # files made of lines of every kind, with every line ending, the last one ended or not
    names=[b"a",b"b",b"key",b"a b",b"path",b"location:x",b"k"*40,b"\xc3\xa9",b"x.y"]; vals=[b"",b"1",b"two words",b"a=b",b"[x]",b";no comment",b"v"*100,b"a ; b",b"\xff",b"^/x$"]
    ws=[b"",b"",b"",b" ",b"  ",b"\t",b" \t "]
    def line():
        k=r.random(); w=lambda: r.choice(ws)
        if k<0.1: return w()
        if k<0.2: return w()+b";"+r.choice([b"",b" comment",b"a=b",b"[s]",b"="])
        if k<0.4: return w()+b"["+w()+r.choice(names)+w()+b"]"+w()+r.choice([b"",b"",b"; c"])
        if k<0.9: return w()+r.choice(names)+w()+b"="+w()+r.choice(vals)+w()
        return r.choice([b"noequal",b"[open",b"   junk junk",b"]",b"a]",b"[",b"[]"])
    def file(n):
        nl=r.choice([b"\n",b"\n",b"\r\n",b"\r"]); t=nl.join(line() for _ in range(n))
        return t+(nl if r.random()<0.6 else b"")
    ins+=[file(r.choice([1,2,3,5,8,20])) for _ in range(9000 if c.thorough else 2500)]
    # long names, values, many keys and sections
    for n in (100,1000,1023,1024,1025,3000,9000):
        for t in (b"["+b"s"*n+b"]\na=1\n",b"[s]\n"+b"k"*n+b"=1\n",b"[s]\na="+b"v"*n+b"\n",b"[s]\na="+b"v"*n,b";"+b"c"*n+b"\na=1",b"x"*n+b"\n[s]\na=b\n",b"["+b"s"*n+b"\na=1\n",b"[s]"+b" "*n+b"\n"+b" "*n+b"a"+b" "*n+b"="+b" "*n+b"b"+b" "*n+b"\n",b"\n"*min(n,300)+b"a=1"): ins.append(t)
    ins.append(b"".join(b"[s%d]\n"%(i%7)+b"k%d=v%d\n"%(i%11,i) for i in range(150)))
    texts.check(c,"ini",ins)
