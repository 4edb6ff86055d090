"""the server is started with every kind of combination of sources; what it listens on and who answers is judged by Config.tla"""
import os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import vlib, vnetrun, check_S17
from vnetrun import Script, Site
from srv import parse_head
NOISE_CLI=["--no-log","--local","--workers=0","--ssl-none=1"]
def check(c):
    r=c.rnd; build=c.build("vnet","modules",san="asan")
    spec="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    inv="INVARIANT Total\nPROPERTIES Local Above\n"
    gen=c.gen("ConfigGen",spec+inv+"CONSTANT Deep=FALSE\nCONSTRAINT Emit\n")
    for g in gen: g["cli"]=dict(g["cli"]); g["file"]=dict(g["file"])
    few=[g for g in gen if len(g["cli"])+len(g["file"])<=2]; many=[g for g in gen if len(g["cli"])+len(g["file"])>2]
    pick=few+r.sample(many,min(len(many),3000 if c.thorough else 250))
    if c.thorough:
        c.mc("ConfigGen",spec+inv+"CONSTANT Deep=TRUE\n",workers="auto")
    deep=c.gen("ConfigGen",spec+"CONSTANT Deep=TRUE\nCONSTRAINT Emit\n",simulate=400 if c.thorough else 40,depth=12)
    pick+=[{"cli":dict(g["cli"]),"file":dict(g["file"])} for g in deep]
    c.note("configurations",len(pick)); c.note("configurations_in_model",len(gen))
    site=Site(build,None)
    scr=check_S17.SCRIPTS[0]
    def one(k):
        g=pick[k]; rr=__import__("random").Random(k*77+c.seed)
        d=Site.__new__(Site); d.build=build; d.dir=tempfile.mkdtemp(prefix="vsite",dir="/tmp"); shutil.rmtree(d.dir); shutil.copytree(site.dir,d.dir)
        try:
            for i in (1,2,3): d.put("alt/d/i%d.html"%i,b"index %d"%i)
            d.put("alt/a/x.txt",b"from the location"); d.put("www/a/x.txt",b"from the document root")
            open(d.dir+"/etc/h.lua","w").write(scr[1])
            # the file: the options in any order, other sections before and after
            items=list(g["file"].items()); rr.shuffle(items)
            if rr.random()<0.3: items.insert(rr.randrange(len(items)+1),rr.choice([("local","1"),("unknown","x"),("workers","0"),("ssl","0")]))
            eq=rr.choice(["="," = ","="]); gtxt="".join("%s%s%s\n"%(k2,eq,v) + rr.choice(["","","\n","; comment\n"]) for k2,v in items)
            loc=["[location:a]\npath=^/a\nhandler=file\nbase_path=%s/alt/a\n"%d.dir,"[location:d]\npath=^/d\nhandler=file\nbase_path=%s/alt/d\n"%d.dir,"[mod_lua]\nscript_path=etc/h.lua\n"]
            sect=loc+(["[general]\n"+gtxt] if items or rr.random()<0.7 else []); rr.shuffle(sect)
            open(d.dir+"/etc/viriatum.ini","w").write("".join(sect))
            args=["--ip6" if o=="ip6" else "--%s=%s"%(o,v) for o,v in g["cli"].items()]+rr.sample(NOISE_CLI,rr.randrange(0,3)); rr.shuffle(args)
            ev=[{"o":"start","cli":g["cli"],"file":g["file"]}]
            s=Script("s"); q=lambda p: ("GET %s HTTP/1.1\r\nConnection: keep-alive\r\n\r\n"%p).encode()
            fam=[4]
            for f in (4,6):
                s.connect(f,f)
                for p in ("/a/x.txt","/d/","/a/nope"): s.mark("q"); s.data(q(p),f).pump()
            res=d.run([s],args=args,nproc=1)
            if d.startup: return k,ev+[{"o":"startup","why":str(d.startup)[:500]}],args,open(d.dir+"/etc/viriatum.ini").read()
            x=res["s"]
            if not x.ok: return k,ev+[{"o":"crash","why":x.why()}],args,open(d.dir+"/etc/viriatum.ini").read()
            ev.append({"o":"listen","s":[[str(t[1]),t[2],str(t[3])] for t in d.pre+x.ev if t[0]=="LISTEN"]})
            for f in (4,6):
                if ("REFUSED",f) in x.ev: continue
                buf=x.sent(f); bodies=[]
                while buf:
                    h=parse_head(buf)
                    if h in (None,"bad"): break
                    n=int(dict(h[1]).get("content-length","0")); bodies.append((h[0],buf[h[2]:h[2]+n])); buf=buf[h[2]+n:]
                if len(bodies)!=3: ev.append({"o":"junk","n":len(bodies)}); continue
                b=bodies[0][1]
                ev.append({"o":"answer","by":"location" if b==b"from the location" else "file" if b==b"from the document root" else "default" if b==b"Hello Viriatum" else "lua" if b==scr[2] else repr(b[:60])})
                b=bodies[1][1]
                ev.append({"o":"index","i":chr(b[6]) if b[:6]==b"index " else "0" if bodies[1][0]==200 else "?"})
                ev.append({"o":"tpl","on":b"<html" in bodies[2][1]})
            return k,ev,args,open(d.dir+"/etc/viriatum.ini").read()
        finally: shutil.rmtree(d.dir,ignore_errors=True)
    with ThreadPoolExecutor(vnetrun.NPROC) as ex: out=list(ex.map(one,range(len(pick))))
    site.close(); how={str(k):(a,i) for k,_,a,i in out}
    rej=c.validate("ConfigTrace",[{"id":str(k),"ev":ev} for k,ev,_,_ in out])
    for t,p in rej:
        a,i=how[t["id"]]; bad=t["ev"][p] if p<len(t["ev"]) else "(end)"
        c.violation("configuration","started with %s and the file below, the server was seen to: %s"%(a,bad),{"args":a,"ini":i,"trace":t["ev"]})
    c.sample({"args":out[0][2],"trace":out[0][1]}); c.sample({"args":out[-1][2],"ini":out[-1][3],"trace":out[-1][1]})
