import texts
def check(c):
    r=c.rnd
    ins=list(texts.strings([b"A",b"Q",b"/",b"=",b"-"],8 if c.thorough else 5))
    ins+=[bytes([a]) for a in range(256)]+[bytes([a,b]) for a in range(0,256,1 if c.thorough else 5) for b in range(0,256,1 if c.thorough else 7)]
    al=b"ABCXYZabcxyz0189+/"
    for _ in range(6000 if c.thorough else 1500):
        n=r.choice([4,4,8,12,40]); t=bytearray(r.choice(al) for _ in range(n)); k=r.random()
        if k<0.3: t[-1:]=b"="
        elif k<0.5: t[-2:]=b"=="
        elif k<0.6: t[-3:]=b"==="
        if r.random()<0.3: t[r.randrange(n)]=r.choice(b"=-_\0 \n\xff.")
        if r.random()<0.2: t=t[:r.randrange(n)]
        ins.append(bytes(t))
    ins+=[bytes(r.randrange(256) for _ in range(n)) for n in list(range(3,70))+[255,256,257,1000,3001] for _ in range(4 if c.thorough else 1)]
    ins+=[bytes([k])*n for n in (1,2,3,4,5,57) for k in (0,255,128)]
    texts.check(c,"b64",ins)
