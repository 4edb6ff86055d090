import re
import srv
from srv import *
def rb(c,n): return bytes(c.rnd.randrange(256) for _ in range(n)) if n<3000 else (lambda b: (b*(n//len(b)+1))[:n])(bytes(c.rnd.randrange(256) for _ in range(2999)))
def enc(name,how,r):
    o=""
    for b in name:
        ch=chr(b)
        if how=="all" or (how=="mix" and r.random()<0.4) or not (ch.isalnum() and b<128 or ch in "-_.~/!$&'()*,;=:@+"):
            if ch=="/" : o+="/"; continue
            o+=("%%%02x" if r.random()<0.5 else "%%%02X")%b
        else: o+=ch
    return o.encode("latin1")
def check(c):
    c.mc("PathProps","PathProps.cfg")
    r=c.rnd
    sizes=[0,1,2,3,100,1023,1024,1025,4095,4096,4097,8191,8192,8193,16383,16384,16385,20000,65535,65536,65537,131071,131072,131073,200001,262144,262145,1048577]
    if c.thorough: sizes+=[3000000,5242881]+[r.randrange(1,400000) for _ in range(30)]
    files=[("www/size/f%d.bin"%n,rb(c,n)) for n in sizes]
    names=[b"plain",b".hidden",b".html",b"dot.",b"a.b.c",b"two..txt",b"sp ace.txt",b"plus+plus.css",b"per%cent.txt",b"per%41cent.txt",b"amp&amp.html",b"semi;colon.js",b"hash#h.txt",b"quest?ion.txt",b"quo'te.txt",b"caf\xc3\xa9.txt",b"\xe6\x97\xa5\xe6\x9c\xac.html",b"bad\xff\xfe.txt",b"tilde~.txt",b"UPPER.TXT",b"Mixed.HtMl",b"x.GIF",b"x.Css",b"x.tar.gz",b"x.unknownext",b"n"*250+b".txt",b"co:lon.txt",b"at@.txt",b"star*.txt",b"paren(1).txt",b"brace{}.txt",b"br[0].txt",b"bar|.txt",b"back\\slash.txt",b"caret^.txt",b"tick`.txt",b"dq\".txt",b"lt<gt>.txt",b"eq=.txt",b"comma,.txt",b"dol$.txt",b"ex!.txt",b"\x01ctl.txt",b"-dash.txt",b"_us.txt",b"%",b"%4",b"%zz.txt"]
    files+=[("www/names/"+n.decode("utf-8","surrogateescape"),b"content of "+n) for n in names]
    exts=[e for e in re.findall(r'x \|-> "\.([^"]*)"',open(vlib.SPEC+"/Mime.tla").read())]
    files+=[("www/ext/f%d.%s"%(i,e),b"ext %d"%i) for i,e in enumerate(exts)]
    files+=[("www/ext/g%d.%s"%(i,"".join(r.choice([ch.upper(),ch]) for ch in e)),b"EXT %d"%i) for i,e in enumerate(exts)]
    files+=[("www/d.ir/no_ext",b"in dotted dir"),("www/d.html/no_ext",b"in dotted dir 2"),("www/"+"/".join("d%d"%i for i in range(30))+"/deep.txt",b"deep"),("www/"+"/".join("x"*80+str(i) for i in range(8))+"/far.txt",b"far away")]
    for h in ("file","dispatch"):
        w=World(c,h,files=files)
        sc=[]; n=0
        def scen(reqs,*opts):
            nonlocal n; n+=1
            s=Scn(w,"%s%d"%(h,n)).conn()
            for o in opts: getattr(s,o[0])(*o[1:])
            sc.append(s.req(*reqs).pump())
        allp=[f[0][4:].encode("utf-8","surrogateescape") for f in files]
        for p in [x for x in allp if x.startswith(b"size/")]:
            scen([Req(enc(b"/"+p,"min",r),ka=False)]); scen([Req(enc(b"/"+p,"min",r)),Req(enc(b"/"+p,"mix",r)),Req("/names/plain")])
            scen([Req(enc(b"/"+p,"min",r)),Req("/names/plain",ka=False)],("maxsend",r.choice([1000,4096,5000,70000])))
        rest=[x for x in allp if not x.startswith(b"size/")]
        for how in ("min","all","mix"):
            q=[Req(enc(b"/"+p,how,r),ver=r.choice(["1.0","1.1"])) for p in rest]
            for i in range(0,len(q),20): scen(q[i:i+20])
        # the same file by other ways of naming it
        al=[]
        for p in [b"names/plain",b"names/sp ace.txt",b"size/f20000.bin",b"d.ir/no_ext"]:
            e=enc(b"/"+p,"min",r); a,bb=e.rsplit(b"/",1)
            al+=[e+b"?",e+b"?a=b&c=%20",e+b"?x/../y",a+b"//"+bb,a+b"/./"+bb,b"/."+e,b"/names/.."+e,a+b"/../"+a.strip(b"/")+b"/"+bb,b"//"+e[1:],a+b"%2f"+bb,a+b"%2F"+bb,a+b"/nothing/../"+bb,a+b"/"+bb+b"%00",a+b"/"+bb+b"/",a+b"/"+bb+b"x",a+b"/"+bb[:-1]]
        for i in range(0,len(al),16): scen([Req(x) for x in al[i:i+16]])
        for m in ("GET","POST","PUT","DELETE","OPTIONS"): scen([Req("/names/plain",method=m,body=b"some body" if m in("POST","PUT") else b""),Req("/names/UPPER.TXT",method=m)])
        srv.conform(c,w,sc); w.close()
    changing(c)
def changing(c,name="change",share=0.4):
    """files that change, shrink, grow, vanish or come back while they are being sent: a response is
    of the announced size, or else the last thing on its connection"""
    r=c.rnd; todo=[]; T=1500000000
    for h in ("file","dispatch"):
        w=World(c,h,files=[("www/s.txt",b"static file\n")]); sc=[]; n=0
        for size in (10,5000,262144,262145,600000):
            for how in ("gone","empty","half","less","more","other","again"):
                for k in range(0,7 if c.thorough else 5):
                    for lim in (None,0,100,70000) if c.thorough else (None,r.choice([0,100,70000])):
                        if not c.thorough and r.random()>share: continue
                        n+=1; f="www/%s%d.bin"%(name,n); old=bytes((i*7+n)%251+1 for i in range(size)); s=Scn(w,"%s%d"%(name,n)).write(f,old,T).conn()
                        q=lambda **kw: Req("/%s%d.bin"%(name,n),**kw)
                        if lim==0: s.window(r.choice([0,1,100,300,5000]))
                        elif lim: s.maxsend(lim)
                        if n%7==0: s.req(Req("/s.txt"))
                        s.req(q(rg="bytes=%d-%d"%(size//3,size-1)) if n%5==0 else q(ka=n%11!=0)).rounds(k)
                        new={"empty":b"","half":old[:size//2],"less":old[:-1],"more":old+b"more of it"*r.choice([1,30000]),"other":bytes((i*5+n)%250+1 for i in range(size))}.get(how)
                        if new is not None: s.write(f,new,T+60)
                        else:
                            s.unlink(f)
                            if how=="again": s.rounds(r.choice([0,1])).write(f,old[::-1],T+60)
                        if r.random()<0.5: s.rounds(r.choice([1,2]))
                        s.window(-1) if lim==0 else None
                        s.pump()
                        # what comes after is of what there is now, and nobody else noticed
                        s.conn(1).req(q(),Req("/s.txt"),c=1).pump(); sc.append(s)
        todo.append((w,sc))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
