import itertools
import srv
from srv import *
def check(c):
    c.mc("PathProps","PathProps.cfg")
    r=c.rnd
    SECRET=b"TOP-SECRET-DATA: %s outside of everything served\n"
    files=[("secret.txt",SECRET%b"top"),("wwwx/s.txt",SECRET%b"sibling"),("www2/s.txt",SECRET%b"sibling 2"),("etc/passwd",SECRET%b"etc"),("bbx/s.txt",SECRET%b"base sibling"),("bbs.txt",SECRET%b"glued"),
           ("www/a.txt",b"public a\n"),("www/d/b.txt",b"public b\n"),("www/d/e/f.txt",b"public f\n"),("www/etc/passwd",b"public file called passwd"),("www/..x/y.txt",b"dots in front"),("www/d/...",b"three dots"),("bb/b.txt",b"base b\n"),("bb/q",b"one letter"),("bb/d/c.txt",b"base c\n"),("www/bb/fake.txt",b"fake")]
    segs=["..","d",".","","%2e%2e","%2E.",".%2e","a.txt","etc","passwd","..%2f","%2f..","secret.txt","wwwx"]
    L=4 if c.thorough else 3
    combos=[p for k in range(1,L+1) for p in itertools.product(segs,repeat=k)]
    if not c.thorough: combos+=[tuple(r.choice(segs) for _ in range(r.choice([4,5,6]))) for _ in range(1200)]
    urls=["/"+"/".join(p) for p in combos]
    odd=["","*","a.txt","../secret.txt","..","/..","/../","//..","/../secret.txt","/d/../../secret.txt","/..%c0%af../secret.txt","/%252e%252e/secret.txt","/%2e%2e%2fsecret.txt","/..%5csecret.txt","/..\\secret.txt","/%00","/a.txt%00","/%00/../../secret.txt","/d/%00../..","/a.txt%00/../../secret.txt","/....//secret.txt","/.../secret.txt","/..;/secret.txt","/.%2e/secret.txt","/%2e./secret.txt","/..//secret.txt","/./../secret.txt","//etc/passwd","/%2fetc/passwd","/%2Fetc%2Fpasswd","///etc/passwd","/etc/passwd","/?/../../secret.txt","/d?../../secret.txt","/..?x","/../?x","/d/..%2f..%2fsecret.txt","/d%2f..%2f..%2fsecret.txt","/x/../../secret.txt","/d/e/../../../secret.txt","/d/e/../../..","/d/e/../../../","/../www/a.txt","/d/../../www/a.txt","/../wwwx/s.txt","/../www2/s.txt","/%2e%2e/www2/s.txt","/www2/s.txt","/..www2/s.txt","http://h/../secret.txt","http://h/a.txt","/a.txt/..","/a.txt/../..","/a.txt/../../secret.txt","/a.txt/../../www/a.txt","%2e%2e/secret.txt","/%2e%2e","/%2e%2e/","/d/%2e%2e/%2e%2e/","/..x/y.txt","/d/...","/...","/..."*3,"/"+"../"*50+"etc/passwd","/"+"d/../"*100+"a.txt","/"+"d/../"*100+"../secret.txt","/"+"./"*400+"a.txt","/"+"/"*500+"a.txt","/"+"%2e%2e/"*100+"secret.txt","/"+"a"*900,"/"+"a"*1100,"/"+"a"*4200,"/"+"../"*340+"secret.txt","/"+"../"*341+"secret.txt","/"+"d/../"*220+"../secret.txt","/"+"x"*1020+"/../../secret.txt","/d/"+"x"*1010,"/"+"%41"*1400,"/"+"/.."*700]
    base_odd=["/base"+x for x in odd if x.startswith("/")]+["/slashq","/slashd","/slash%71","/slash..","/glueq","/glue/q","/base/q","/base..","/base../bbx/s.txt","/basex/s.txt","/bases.txt","/base/../bbx/s.txt","/base/%2e%2e/bbx/s.txt","/base/..%2fbbx/s.txt","/base/d/../../bbx/s.txt","/base%2f..%2fbbx/s.txt","/base/../base/../secret.txt","/base/b.txt","/base/d/c.txt","/base/d/../b.txt","/glue/../secret.txt","/glue../secret.txt","/gluex/s.txt","/glues.txt","/glue/b.txt","/glue","/glue/","/glue/..","/glue%2e%2e/secret.txt","/glue%2f%2e%2e/secret.txt"]
    for hnd in ("file","dispatch","dispatchloc"):
        locs=[dict(pat="/base/",base="bb"),dict(pat="/glue",base="bb"),dict(pat="/slash",base="bb/")] if hnd=="dispatchloc" else []
        w=World(c,"dispatch" if hnd!="file" else "file",locs=locs,files=files)
        u=list(urls)
        if hnd!="file" and not c.thorough: u=[x for x in u if r.random()<0.35]
        if locs: u=["/base"+x if r.random()<0.4 else "/glue"+x if r.random()<0.4 else "/slash"+x if r.random()<0.3 else x for x in u]
        u=[x for x in u if x and " " not in x]
        nopath=[x for x in odd if x and not x.startswith(("/","*","http"))]
        q=u+[x for x in odd if x and x not in nopath]+(base_odd if locs else [])+[x.replace("/base","/slash") for x in (base_odd if locs else [])]
        sc=[]
        for i in range(0,len(q),40): sc.append(Scn(w,"%s%d"%(hnd,i)).conn().req(*[Req(x) for x in q[i:i+40]]).pump())
        for i,x in enumerate(nopath): sc.append(Scn(w,"%sx%d"%(hnd,i)).conn().req(Req("/a.txt"),Req(x,bad=True)).pump())
        # a target that is neither a path, nor "*", nor an absolute URL is no request
        srv.conform(c,w,sc); w.close()
