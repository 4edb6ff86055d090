import json
from srv import *
import srv
def diag(e,h,body):
    """the diagnostics page: a JSON object describing the server"""
    if body[:1]!=b"{": return
    try: d=json.loads(body)
    except ValueError: return
    if all(isinstance(d.get(k),str) and d.get(k)!="" for k in ("name","version","platform","description","uptime")) and d.get("port")==8080 and d.get("status")==2-1 and isinstance(d.get("connections"),int): e["diag"]=d["connections"]
HEAD="HTTP/1.1 200 OK\\r\\nConnection: keep-alive\\r\\nContent-Length: %d\\r\\nX-Script: yes\\r\\n\\r\\n"
def lua(w,script,body=None,mt=None,every=0):
    """every: the script succeeds only once in so many requests"""
    w.put("etc/h.lua",script.encode("latin1"))
    w.rec["lua"]={"fails":body is None,"n":len(body or b""),"cid":w.content(body) if body is not None else 0}
    if every: w.rec["lua"]["every"]=every
def flaky(c):
    """scripts that fail at times: the requests in between are answered, however many have failed"""
    r=c.rnd; todo=[]
    for every,size,count in ((2,10,40),(3,6000,60),(7,100,200),(10,60000,300 if c.thorough else 150)):
        for ut in (True,False) if c.thorough else (every%2==0,):
            w=World(c,"lua",ini_extra="[mod_lua]\nscript_path=etc/h.lua\n",use_template=ut); b=b"now and then\n"
            lua(w,'n=n or 0\nfunction handle()\n n=n+1\n if n%%%d~=0 then error(string.rep(string.char(97+n%%26),%d)..n) end\n collectgarbage()\n if collectgarbage("count")>4000 then error("too much is held: "..collectgarbage("count")) end\n local m="%s".."now and then\\n"\n write_connection(connection,m,#m)\nend\n'%(every,size,HEAD%len(b)),b,every=every)
            sc=[]
            for i in range(4 if size<9999 else 2):
                s=Scn(w,"flaky%d-%d"%(every,i)).conn(); n=0
                while n<count:
                    qs=[Req("/f%d"%k,ka=n+k+1<count) for k in range(min(count-n,r.choice([1,1,2,5])))]
                    for q in qs: n+=1; q.rec["n"]=n
                    s.req(*qs)
                    if i%2==0 or r.random()<0.5: s.pump()
                sc.append(s.pump())
            todo.append((w,sc))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
SCRIPTS=[("plain",'function handle()\n local b="hello from lua\\n"\n local m="'+HEAD%15+'"..b\n write_connection(connection,m,string.len(m))\nend\n',b"hello from lua\n"),
 ("empty",'function handle()\n local m="'+HEAD%0+'"\n write_connection(connection,m,#m)\nend\n',b""),
 ("large",'function handle()\n local b=string.rep("0123456789abcdef",8000)\n local m="HTTP/1.1 200 OK\\r\\nConnection: keep-alive\\r\\nContent-Length: "..#b.."\\r\\n\\r\\n"..b\n write_connection(connection,m,#m)\nend\n',b"0123456789abcdef"*8000),
 ("binary",'function handle()\n local b="a\\0b\\255c\\r\\n\\r\\nHTTP"\n local m="HTTP/1.1 200 OK\\r\\nConnection: keep-alive\\r\\nContent-Length: "..#b.."\\r\\n\\r\\n"..b\n write_connection(connection,m,#m)\nend\n',b"a\0b\xffc\r\n\r\nHTTP"),
 ("syntax",'function handle( this is no lua\n',None),
 ("toplevel",'error("top level "..string.rep("x",3000))\n',None),
 ("runtime",'function handle()\n error("boom")\nend\n',None),
 ("longerror",'function handle()\n error(string.rep("y",6000))\nend\n',None),
 ("tableerror",'function handle()\n error({})\nend\n',None),
 ("nilcall",'function handle()\n local x=nil\n x.y=1\nend\n',None),
 ("nohandle",'x=1\n',None),
 ("badargs",'function handle()\n write_connection(connection)\nend\n',None),
 ("badtype",'function handle()\n write_connection("a","b","c")\nend\n',None),
 ("badlen",'function handle()\n write_connection(connection,{},3)\nend\n',None),
 ("pieces",'function handle()\n local m="'+HEAD%26+'"\n write_connection(connection,m,#m)\n write_connection(connection,"",0)\n for i=97,122 do write_connection(connection,string.char(i).."never",1) end\nend\n',b"abcdefghijklmnopqrstuvwxyz"),
 ("bytes",'function handle()\n local m="'+HEAD%300+'"..string.rep("xyz",100)\n for i=1,#m do write_connection(connection,m:sub(i,i),1) end\nend\n',b"xyz"*100),
 ("largepieces",'function handle()\n local m="HTTP/1.1 200 OK\\r\\nConnection: keep-alive\\r\\nContent-Length: 400000\\r\\n\\r\\n"\n write_connection(connection,m,#m)\n for i=1,8 do write_connection(connection,string.rep(tostring(i),50000),50000) end\nend\n',b"".join(b"%d"%i*50000 for i in range(1,9))),
 ("writethenfail",'function handle()\n local m="'+HEAD%15+'hello from lua\\n"\n write_connection(connection,m,string.len(m))\n error("after the response")\nend\n',None),
 ("halfthenfail",'function handle()\n local m="'+HEAD%15+'hello"\n write_connection(connection,m,string.len(m))\n local x=nil\n x.y=1\nend\n',None),
 ("silent",'function handle()\n local x=1\nend\n',None),
 ("nothing",'function handle()\n write_connection(connection,"something",0)\nend\n',None),
 ("toolong",'function handle()\n local m="'+HEAD%15+'hello"\n write_connection(connection,m,#m+10)\nend\n',None),
 ("negative",'function handle()\n write_connection(connection,"abc",-1)\nend\n',None)]
def check(c):
    r=c.rnd
    meth=["GET","POST","PUT","DELETE","OPTIONS"]
    def q(n):
        m=r.choice(meth); return Req(r.choice(["/","/x","/a/b?c=d","/%41","/..","/"+"z"*300]),method=m,body=b"payload "*r.choice([0,1,50,2000]) if m in ("POST","PUT") else b"",ka=r.random()<0.8,ver=r.choice(["1.1","1.0"]),headers=[("X-A","b")]*r.randrange(4))
    def scns(w,tag,n):
        sc=[]
        for i in range(n):
            s=Scn(w,"%s%d"%(tag,i)); k=r.choice([1,1,2,3])
            for x in range(k): s.conn(x)
            s.pump()
            for _ in range(r.choice([1,3,6])):
                x=r.randrange(k)
                if r.random()<0.3: s.maxsend(r.choice([37,100,1000,5000]),x)
                qs=[q(i) for _ in range(r.choice([1,1,2,4]))]
                if w.rec["handler"]=="lua":
                    for y in qs: pass
                s.req(*qs,c=x)
                if r.random()<0.8: s.pump()
            s.pump(); sc.append(s)
        return sc
    n=60 if c.thorough else 18
    todo=[]
    for h in ("default","gif","diag"):
        w=World(c,h,files=[("www/a.txt",b"never served")]); w.abstract=(diag,)
        todo.append((w,scns(w,h,n)))
    for name,script,body in SCRIPTS:
        w=World(c,"lua",ini_extra="[mod_lua]\nscript_path=etc/h.lua\n",use_template=r.random()<0.5); lua(w,script,body)
        todo.append((w,scns(w,name,max(4,n//4))))
    srv.conform_many(c,todo)
    for w,_ in todo: w.close()
    flaky(c)
