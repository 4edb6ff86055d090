import itertools
import srv
from srv import *
def huge(c):
    """files of more bytes than 31 or 32 bits can count: what is served of them is
    what would be served of their beginning, or their end, alone"""
    import os
    r=c.rnd; K=600; data=bytes((i*11+i//7)%255+1 for i in range(K))
    for edge in (1<<31,1<<32,5<<30) if c.thorough else (1<<31,1<<32):
        for at in ("end","start"):
            base=edge-250 if at=="end" else 0; total=base+K if at=="end" else edge+r.randrange(300)
            w=World(c,"file",files=[("www/huge.bin",data)]+[("www/small.bin",b"0123456789")])
            p=w.dir+"/www/huge.bin"; t=os.stat(p).st_mtime
            with open(p,"r+b") as f:
                if at=="end": f.truncate(0); f.seek(base); f.write(data)
                f.truncate(total)
            os.utime(p,(t,t)); sc=[]
            def place(a,b,n,base=base,total=total):
                if n==10: return [a,b,n]
                return [a-base if a>=0 else a,b-base if b>=0 else b,K if n==total else 10**10]
            w.place=place
            def q(a,b,suffix=False):
                real="bytes=-%d"%b if suffix else "bytes=%s-%s"%(a+base,"" if b is None else b+base)
                x=Req("/huge.bin",rg=real); x.rec["rg"]=B("bytes=-%d"%b if suffix else "bytes=%s-%s"%(a,"" if b is None else b)); return x
            ps=[0,1,2,100,248,249,250,251,252,300,K-2,K-1]
            rs=[q(a,b) for a in ps for b in ps if a<=b]
            if at=="end": rs+=[q(a,None) for a in ps+[K,K+1,K+1000]]+[q(0,b,True) for b in (1,2,100,349,350,351,K)]+[q(a,b) for a in ps for b in (K,K+1,K+5000)]+[q(K,K),q(K+5,K+9)]
            r.shuffle(rs)
            for i in range(0,len(rs),20):
                s=Scn(w,"h%d%s%d"%(edge>>20,at,i)).conn()
                if i%40==0: s.maxsend(r.choice([50,97,400]))
                sc.append(s.req(*[y for x in rs[i:i+20] for y in (x,Req("/small.bin",rg="bytes=3-"))]).pump())
            srv.conform(c,w,sc); w.close()
def check(c):
    c.mc("PathProps","PathProps.cfg")
    r=c.rnd
    sizes=[0,1,2,4,10,1000,262143,262144,262145,600000]
    files=[("www/f%d.bin"%n,bytes((i*7+i//251+n*13)%256 for i in range(n))) for n in sizes]
    w=World(c,"file",files=files); sc=[]
    def batch(tag,reqs,k=40):
        for i in range(0,len(reqs),k): sc.append(Scn(w,"%s%d"%(tag,i)).conn().req(*reqs[i:i+k]).pump())
    # every pair of limits around a small file's borders
    for n in (0,1,2,4):
        lim=[""]+[str(x) for x in range(0,n+3)]
        batch("s%d_"%n,[Req("/f%d.bin"%n,rg="bytes=%s-%s"%(a,b)) for a in lim for b in lim])
    # every short text: nothing but a byte range counts as one
    alpha="049-,x "
    texts=["".join(t) for k in range(0,5 if c.thorough else 4) for t in itertools.product(alpha,repeat=k)]
    texts=[t for t in texts if t==t.strip() and not ("," in t and "-" in t)]
    batch("t",[Req("/f10.bin",rg="bytes="+t) for t in texts])
    odd=["bytes","bytes=","byte=0-1","bytes:0-1","bytes =0-1","Bytes=0-1","BYTES=1-2","items=0-1","=0-1","0-1","bytes=0-1\t","bytes=+1-2","bytes=0x1-2","bytes=1.0-2","bytes=--1","bytes=1--2","bytes=-","bytes=1-2-3","bytes=00000000000000000001-0000000000000000000002","bytes=0-18446744073709551615","bytes=0-18446744073709551616","bytes=18446744073709551616-","bytes=18446744073709551615-18446744073709551617","bytes=-18446744073709551617","bytes=4294967296-4294967297","bytes=-4294967297","bytes=2147483648-","bytes=0-2147483648","bytes=9223372036854775807-9223372036854775808","bytes=0-"+"9"*100,"bytes="+"0"*100+"-5","bytes="+"1"*200+"-","bytes=0-1"+" "*3,"x"*3000,"bytes=-0","bytes=0-0","bytes=-1","bytes=9-9","bytes=9-","bytes=10-","bytes=10-10","bytes=9-10","bytes=-10","bytes=-11","bytes=-9"]
    for n in (10,1000): batch("o%d_"%n,[Req("/f%d.bin"%n,rg=x.strip()) for x in odd])
    batch("n",[Req("/f10.bin",headers=[(h,"bytes=2-4")]) for h in ("X-Range","Ranges","Rang","If-Range","range-x")]+[Req("/f10.bin",rg="bytes=2-4"),Req("/f10.bin")])
    # the value of a header that has none is not taken from the one that follows
    batch("v",[Req("/f10.bin",headers=[(a,""),(b,"bytes=2-4")]) for a in ("Range","range") for b in ("X-Range","User-Agent","If-Range","Accept-X")]+[Req("/f10.bin",headers=[("Range",""),("Host","h"),("Accept","bytes=1-1")]),Req("/f10.bin")])
    # big files: ranges around the size of the sending buffer, with and without backpressure
    n2=0
    for n in (262143,262144,262145,600000):
        b=[0,1,n//2,n-1,n,262143,262144,262145,n-262144,n-262145]
        rg=["bytes=%d-%d"%(x,y) for x in b for y in b if 0<=x<=y]+["bytes=-%d"%x for x in b if x>=0]+["bytes=%d-"%x for x in b if x>=0]
        for x in (rg if c.thorough else r.sample(rg,14)):
            n2+=1
            s=Scn(w,"b%d"%n2).conn()
            if n2%3==0: s.maxsend(r.choice([5000,60000,262144]))
            sc.append(s.req(Req("/f%d.bin"%n,rg=x),Req("/f10.bin",rg="bytes=3-"),Req("/f4.bin",ka=False)).pump())
    # a range never survives into the next request, nor does a missing file get one
    batch("m",[Req("/f10.bin",rg="bytes=2-4"),Req("/f10.bin"),Req("/f10.bin",rg="bytes=20-"),Req("/f10.bin"),Req("/nope",rg="bytes=2-4"),Req("/f10.bin",rg="junk"),Req("/",rg="bytes=0-1"),Req("/f10.bin",rg="bytes=-2"),Req("/f4.bin",rg="bytes=1-1"),Req("/f4.bin",rg="bytes=0-")])
    srv.conform(c,w,sc); w.close()
    huge(c)
    w=World(c,"dispatch",files=files); sc=[]
    batch("d",[Req("/f%d.bin"%n,rg="bytes=%s"%x) for n in (0,1,10,1000) for x in ("0-0","1-","-3","2-5","5-2","11-","0-99999")])
    srv.conform(c,w,sc); w.close()
