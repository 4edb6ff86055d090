import texts
def check(c):
    r=c.rnd
    al=[b"a",b"-",b"=",b"\0"]
    ins=[t+b"\0" for t in texts.strings(al,8 if c.thorough else 6) if t]
    names=[b"port",b"host",b"a",b"p",b"no-log",b"ip6",b"x"*30,b"\xc3\xa9",b"handler"]; vals=[b"",b"8080",b"a b",b"=",b"--x",b"-",b"v"*50,b"/a=b/c"]
    def arg():
        k=r.random()
        if k<0.3: return b"--"+r.choice(names)
        if k<0.7: return b"--"+r.choice(names)+b"="+r.choice(vals)
        if k<0.8: return b"-"+r.choice(names)[:1]
        if k<0.85: return b"-"+r.choice(names)+b"="+r.choice(vals)
        return r.choice([b"file",b"a=b",b"",b"-",b"x-y",b"/path",b"0"])
    for _ in range(6000 if c.thorough else 1500): ins.append(b"".join(arg()+b"\0" for _ in range(r.choice([1,2,3,6,20]))))
    for n in (100,255,256,257,1023,1024,1025,6000):
        ins+=[b"--"+b"k"*n+b"\0",b"--"+b"k"*n+b"=v\0",b"--k="+b"v"*n+b"\0",b"-"+b"k"*n+b"="+b"v"*n+b"\0",b"p"*n+b"\0--a=b\0"]
    ins.append(b"".join(b"--k%d=%d\0"%(i%60,i) for i in range(200)))
    texts.check(c,"args",ins)
