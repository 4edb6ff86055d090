import itertools
from srv import *
import srv
from check_S17 import diag, lua, SCRIPTS
def check(c):
    r=c.rnd
    files=[("www/a/x.txt",b"www a x"),("www/a/b/x.txt",b"www a b x"),("www/x.txt",b"www x"),("www/a/index.html",b"www a index"),("www/ab/x.txt",b"www ab x"),("www/b/x.txt",b"www b x"),("www/x.gif",b"www x gif"),("www/q/x",b"www q x"),("www/a b/x.txt",b"www a space b x"),
           ("one/x.txt",b"one x"),("one/b/x.txt",b"one b x"),("one/index.html",b"one index"),("one/x.gif",b"one x gif"),("two/x.txt",b"two x"),("two/b/x.txt",b"two b x"),("two/b/index.html",b"two b index"),("three/x.txt",b"three x")]
    pool=[dict(pat="/a",h="default"),dict(pat="/a/",h="gif"),dict(pat="/a/b",h="diag"),dict(pat="/a/",base="one"),dict(pat="/a/b/",base="two"),dict(pat="/a",base="one"),dict(pat="/b",base="two/"),dict(pat="/",base="one"),dict(pat="/",h="gif"),dict(kind="any",h="default"),dict(kind="exact",pat="/x.txt",h="gif"),dict(kind="exact",pat="/a",h="diag"),dict(kind="suffix",pat=".gif",h="gif"),dict(kind="suffix",pat=".txt",h="default"),dict(kind="suffix",pat="/",h="diag"),dict(kind="contains",pat="/b/",h="default"),dict(kind="contains",pat="x",h="gif"),dict(pat="/nope",h="default"),dict(pat="/a/",users=[("u","p")]),dict(pat="/a/b/",base="two",users=[("u","p")]),dict(kind="suffix",pat=".html",h="gif"),dict(pat="/ab",h="lua"),dict(pat="/b/",h="lua"),dict(kind="exact",pat="/",h="gif"),dict(kind="exact",pat="/index.html",h="diag"),dict(pat="/a%20b/",base="two"),dict(pat="/A",h="gif"),dict(kind="contains",pat="//",h="gif"),dict(kind="contains",pat="..",h="gif"),dict(kind="contains",pat="%",h="diag")]
    raws=["/","/a","/a/","/a/b","/a/b/","/a/x.txt","/a/b/x.txt","/ab","/ab/x.txt","/abc","/b","/b/","/b/x.txt","/x.txt","/x.gif","/a/x.gif","/a/index.html","/index.html","/nope","/nope/x","/q/x","/A","/A/x.txt","/a//x.txt","//a/x.txt","/a/./x.txt","/./a/x.txt","/b/../a/x.txt","/a/../b/x.txt","/a/b/../x.txt","/a/b/..","/a/b/../","/%61/x.txt","/a%2fx.txt","/a/%62/x.txt","/%61%2Fb%2Fx.txt","/a/%2e%2e/b/x.txt","/a/%2E/x.txt","/x%2etxt","/x.tx%74","/a%2F","/%61","/a?","/a?/b/","/a/?x.gif","/x.txt?.gif","/?/a/b","/a/x.txt?/a/b/","/q/x?x.txt","/q/x?a=/b/","/a%3Fb","/a/b?%2F","/a/b/x.txt?","/%2fa/x.txt","/a%20b/x.txt","/a+b/x.txt","/b//../a/","/a/b//","/a/.","/a/b/.","/a/..","/a/..%2fb/x.txt","/x%00.txt","/a%00/x.txt","/%61%62/x.txt","/a%","/a%2","/a/b%2","/%zz/a/"]
    worlds=[]
    for n in range(60 if c.thorough else 16):
        k=r.choice([1,2,2,3,3,4,6])
        worlds.append(("dispatch",r.sample(pool,k),r.choice([None,"index.html","index.html x.txt"])))
    # whatever a location may be
    PATS=dict(prefix=["/a","/a/","/a/b","/a/b/","/b/","/","/x","/ab"],suffix=[".txt",".html","/","x","/index.html","/b/","b/x.txt"],contains=["/b","/b/","a/","x","b/x","/index","/a/b/",".","index.html"],exact=["/a/","/x.txt","/a/index.html","/a/b/","/index.html","/"],any=[None])
    def anyloc():
        k=r.choice(["prefix","prefix","suffix","contains","exact","any"]); l=dict(kind=k,h=r.choice(["file"]*4+["gif","default","diag"]))
        if k!="any": l["pat"]=r.choice(PATS[k])
        if l["h"]=="file" and r.random()<.6: l["base"]=r.choice(["one","two","two/","three","two/b","www/a"])
        if l["h"]=="file" and r.random()<.2: l["users"]=[("u","p")]
        return l
    for n in range(150 if c.thorough else 20): worlds.append(("dispatch",[anyloc() for _ in range(r.choice([2,2,3,4]))],r.choice([None,"index.html","index.html x.txt","index.html"])))
    # an index file that belongs to a location of its own
    for kind,pat in (("suffix",".html"),("contains","index"),("exact","/a/index.html"),("suffix","index.html"),("contains","/b/i")):
        for l in (dict(base="one"),dict(users=[("u","p")]),dict(base="www/a",users=[("u","p")]),dict(h="gif")):
            for d in (dict(pat="/a/"),dict(pat="/a/",base="one"),dict(pat="/",base="two"),dict(pat="/a/",users=[("v","w")])):
                if c.thorough or r.random()<.3:
                    w=[dict(l,kind=kind,pat=pat),d]; w=w[::-1] if kind=="contains" and r.random()<.3 else w; worlds.append(("dispatch",w,"index.html"))
    # the same locations in every order
    for perm in itertools.permutations([dict(pat="/a",h="default"),dict(pat="/a/",h="gif"),dict(kind="suffix",pat=".txt",base=None,h="diag")]): worlds.append(("dispatch",list(perm),None))
    for perm in itertools.permutations([dict(pat="/a/",base="one"),dict(pat="/a/b/",base="two"),dict(pat="/",base="three")]): worlds.append(("dispatch",list(perm),r.choice([None,"index.html"])))
    worlds.append(("file",pool[:6],None)); worlds.append(("default",pool[3:8],"index.html")); worlds.append(("dispatch",[],None))
    worlds.append(("dispatch",[dict(pat="/l%d/"%i,h=["default","gif","diag","file"][i%4],base="one" if i%4==3 else None) for i in range(40)]+[dict(kind="any",h="gif")],None))
    todo=[]
    for wi,(h,locs,index) in enumerate(worlds):
        us=list(raws)+(["/l%d/x.txt"%i for i in range(0,41)] if len(locs)>20 else [])
        w=World(c,h,index=index,locs=[dict(l) for l in locs],files=files,ini_extra="[mod_lua]\nscript_path=etc/h.lua\n",eff_index=None if h=="dispatch" else ""); w.abstract=(diag,)
        lua(w,SCRIPTS[0][1],SCRIPTS[0][2])
        sc=[]
        q=[Req(u) for u in us]+[Req(r.choice(us),auth=("u","p")) for _ in range(12)]+[Req(r.choice(us),method="POST",body=b"b") for _ in range(6)]
        r.shuffle(q)
        for i in range(0,len(q),16): sc.append(Scn(w,"w%dq%d"%(wi,i)).conn().req(*q[i:i+16]).pump())
        # two connections in turn
        s=Scn(w,"w%dt"%wi).conn(0).conn(1).pump()
        for i in range(14): s.req(Req(r.choice(us),auth=("u","p") if r.random()<0.3 else None),c=r.randrange(2)).pump()
        sc.append(s)
        todo.append((w,sc))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
