import itertools
import srv
from srv import *
def check(c):
    r=c.rnd
    names=["a","b","aa","Z","z","0","10","9","_","-","~",".hid","..more","a.b","a b","A","caf\u00e9","\u65e5","x"*255,"a+b","100%","#","(x)","[y]"]
    def perm_dirs(prefix):
        out=[]
        # the same entries created in every order, files and directories
        for i,p in enumerate(itertools.permutations(["d","f","Dir","File"])):
            for n in p:
                out.append(("%s/p%d/%s"%(prefix,i,n),None if n[0] in "dD" else b"x"))
        order=names[:]
        for k in range(3):
            r.shuffle(order)
            for i,n in enumerate(order): out.append(("%s/n%d/%s"%(prefix,k,n),None if (hash_(n)+k)%3==0 else n.encode()))
        order=["e%03d"%i for i in range(400 if c.thorough else 150)]; r.shuffle(order)
        for i,n in enumerate(order): out.append(("%s/many/%s"%(prefix,n),None if int(n[1:])%7==0 else b"y"))
        for i in range(40): out.append(("%s/long/%s%02d"%(prefix,"l"*240,i),b"z"))
        out+=[("%s/empty"%prefix,None),("%s/one/only.txt"%prefix,b"1"),("%s/nest/a/b/c"%prefix,None),("%s/sp ace/in ner/f"%prefix,b"f"),("%s/pl+us/f"%prefix,b"f"),("%s/\u00e9/f"%prefix,b"f")]
        return out
    def hash_(n): return sum(n.encode("utf-8","surrogateescape"))
    files=perm_dirs("www")+[("www/idx/index.html",b"<h1>index of idx</h1>"),("www/idx2/default.htm",b"default of idx2"),("www/idx2/x",b"x"),("www/both/index.html",b"first"),("www/both/default.htm",b"second"),("www/near/index.htm",b"not an index"),("www/near/Index.html",b"nor this"),("www/sub.html/index.html",b"dotted dir"),("www/idx/deep/index.html",b"deep index"),("www/idx/deep/none/f",b"f"),("www/sp ace/index.html",b"spaced index"),("bb/q.txt",b"q"),("bb/ix/index.html",b"base index"),("bb/noix/a",b"a"),("bb/index.html",b"root base index"),("www/base/index.html",b"never this one"),("www/noix/index.html",b"nor this one either"),("www/both/x",b"x")]
    dirs=["/","/empty","/one","/nest","/nest/a","/nest/a/b","/nest/a/b/c","/sp%20ace","/sp%20ace/in%20ner","/pl%2Bus","/%C3%A9","/many","/long","/idx","/idx2","/both","/near","/sub.html","/idx/deep","/idx/deep/none","/nope","/empty/nope"]+["/p%d"%i for i in range(24)]+["/n%d"%k for k in range(3)]
    for hnd,index in (("file",None),("dispatch",None),("dispatch","index.html"),("dispatch","index.html default.htm"),("dispatch","default.htm index.html"),("file","index.html")):
        locs=[dict(pat="/base/",base="bb"),dict(pat="/other",base="bb/",kind="prefix")] if hnd=="dispatch" else []
        w=World(c,hnd,index=index,files=files,locs=locs,eff_index="" if hnd=="file" else None)
        if hnd=="dispatch" and index is None: w.rec["index"]=[B("index.html")] if False else w.rec["index"]
        sc=[]; q=[]
        for d in dirs:
            d1=d.rstrip("/")
            q+=[Req(d1+"/"),Req(d1 or "/"),Req((d1 or "")+"/?q=1/2"),Req((d1 or "/")+"?q=/")]
            if d1: q+=[Req(d1+"//"),Req(d1+"/./"),Req(d1+"/x/../"),Req("/"+d1+"/"),Req(d1+"/."),Req(d1+"/.."),Req("".join("%%%02x"%ord(ch) if ch.isalpha() and "%" not in d1 else ch for ch in d1)+"/")]
        q+=[Req("/idx/",method="POST",body=b"xx"),Req("/idx",method="POST",body=b"xx"),Req("/one/",rg="bytes=0-3"),Req("/idx/",rg="bytes=0-3"),Req("/one/",inm="*"),Req("/one",rg="bytes=0-1")]
        if locs: q+=[Req(x) for x in ("/base/","/base","/base/ix/","/base/ix","/base/noix/","/base/noix","/base/q.txt","/base/nope/","/other/","/other","/other/ix/","/other/ix","/other/noix/","/base/../base/ix/","/ba%73e/ix/")]
        if not c.thorough: q=[x for i,x in enumerate(q) if i<60 or r.random()<0.7]
        r.shuffle(q)
        for i in range(0,len(q),25): sc.append(Scn(w,"q%d"%i).conn().req(*q[i:i+25]).pump())
        for k in range(6): sc.append(Scn(w,"b%d"%k).conn().maxsend([1,7,100,1000,4096,20000][k] if k else 50).req(Req("/many/" if k>2 else "/one/"),Req("/p3/"),Req("/idx",ka=False)).pump())
        srv.conform(c,w,sc); w.close()
