import texts
def check(c):
    r=c.rnd
    ins=list(texts.strings([b"%",b"4",b"1",b"a",b"G",b"+"],6 if c.thorough else 4))
    ins+=[bytes([a]) for a in range(256)]+[bytes([a,b]) for a in range(256) for b in ([37,43,48,97,0,255] if not c.thorough else range(256))]
    ins+=[b"%"+bytes([a,b]) for a in list(range(44,112))+[0,127,128,255] for b in list(range(44,112,1 if c.thorough else 3))+[0,255]]
    ins+=[bytes(r.randrange(256) for _ in range(n)) for n in (3,8,50,300,2000) for _ in range(30 if c.thorough else 8)]
    ins+=[b"".join(r.choice([b"%",b"%2",b"%41",b"%00",b"%fF",b"+",b"x",b"%%",b"%zz"]) for _ in range(r.choice([3,10,60]))) for _ in range(3000 if c.thorough else 600)]
    texts.check(c,"pct",ins)
