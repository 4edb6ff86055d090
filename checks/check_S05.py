from srv import *
import srv, check_S03, check_S06
def check(c):
    r=c.rnd; todo=[]
    for h in ("dispatch","file"):
        w=check_S03.world(c,h,args=("--port=8080","--no-log"))
        w.put("www/huge.bin",bytes((i*13+i//997)%256 for i in range(3000000 if c.thorough else 900000)))
        w.put("www/b262144",b"k"*262144); w.put("www/b262145",b"l"*262145); w.put("www/b262143",b"m"*262143); w.put("www/b524288",b"n"*524288)
        al=dict(check_S03.alphabet(check_S03.first_etag(c,w)))
        if h=="dispatch": al["post401"]=al["post401"]
        else: al={k:v for k,v in al.items() if k not in ("unauth","auth","gif","hello","postgif","post401","chunked0")}
        for n in ("huge.bin","b262144","b262145","b262143","b524288"): al[n]=(lambda n: lambda **k: Req("/"+n,**k))(n)
        al["hugerange"]=lambda **k: Req("/huge.bin",rg="bytes=100-800000",**k)
        big=[k for k in al if k in ("big","bigrange","huge.bin","hugerange","b262144","b262145","b262143","b524288")]; small=[k for k in al if k not in big]
        sc=[]
        # limits per send
        for k in al:
            for lim in ([1,2,3,5,17,100,1000,4095,4096,4097] if k in small else [997,4096,30000,65536,262143,262144,262145,300000]):
                for ka in (True,False):
                    if not c.thorough and r.random()<0.4: continue
                    sc.append(Scn(w,"L%s%d%s"%(k,lim,ka)).conn().maxsend(lim).req(al[k](ka=ka)).pump())
        # windows: so many bytes, then nothing, then more, until everything went through
        for i in range(500 if c.thorough else 160):
            k=r.choice(small if r.random()<0.6 else big); s=Scn(w,"W%d"%i).conn(); seq=[al[k]()]+[al[r.choice(small)]() for _ in range(r.choice([0,1,3]))]
            seq.append(al[r.choice(small)](ka=r.random()<0.5))
            s.window(r.choice([0,1,2,10,50,100,150,200,300,1000,5000,100000]) )
            s.req(*seq).pump()
            for _ in range(r.choice([1,3,8])):
                s.window(r.choice([0,1,2,7,60,130,200,1000,20000,262144,300000])).pump()
            s.window(-1).pump(); sc.append(s)
        # a client that does not read; others go on
        for i in range(200 if c.thorough else 60):
            s=Scn(w,"D%d"%i); nb=r.choice([1,1,2]); 
            for x in range(nb+2): s.conn(x)
            for x in range(nb):
                s.window(r.choice([0,0,1,100,5000]),x); s.req(*[al[r.choice(list(al))]() for _ in range(r.choice([1,2]))],c=x)
            s.pump()
            for _ in range(3):
                for x in (nb,nb+1):
                    if r.random()<0.3: s.maxsend(r.choice([100,1000,70000]),x)
                    s.req(*[al[r.choice(list(al))]() for _ in range(r.choice([1,2]))],c=x); s.pump()
            if r.random()<0.7:
                for x in range(nb): s.window(-1,x)
                s.pump()
            sc.append(s)
        # interleaved progress of several slow readers
        for i in range(120 if c.thorough else 40):
            s=Scn(w,"I%d"%i); k=r.choice([2,3,4])
            for x in range(k): s.conn(x); s.maxsend(r.choice([500,5000,66000]),x); s.req(al[r.choice(list(al))](),al[r.choice(small)](),c=x)
            for _ in range(r.choice([3,10,30])):
                s.rounds(r.choice([1,2]))
                x=r.randrange(k)
                if r.random()<0.3: s.window(r.choice([0,3,1000]),x)
                else: s.window(-1,x)
            for x in range(k): s.window(-1,x)
            s.pump(); sc.append(s)
        todo.append((w,sc))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
    check_S06.changing(c,"part",0.12)
