"""Builds the server of the current directory (a viriatum tree) into a scratch
directory and runs it there on a loopback port, as an ordinary process."""
import os, sys, glob, shutil, socket, subprocess, tempfile, time, atexit, signal
from concurrent.futures import ThreadPoolExecutor
REPO=os.getcwd(); HERE=os.path.dirname(os.path.abspath(__file__))
TMP=tempfile.mkdtemp(prefix="vdemo"); atexit.register(shutil.rmtree,TMP,True)
def config():
    os.makedirs(TMP+"/cfg",exist_ok=True)
    s=open(REPO+"/_build/src/config.h").read()
    for k,v in (("PREFIX","."),("CONFIG_ROOT","./etc"),("MODULE_ROOT","./modules"),("WWW_ROOT","./www")):
        import re
        s=re.sub(r'#define WITH_%s .*'%k,'#define WITH_%s "%s"'%(k,v),s)
    open(TMP+"/cfg/config.h","w").write(s)
def cc(srcs,flags,tag):
    os.makedirs(TMP+"/obj",exist_ok=True)
    def one(s):
        o=TMP+"/obj/"+tag+os.path.relpath(s,"/").replace("/","_")+".o"
        subprocess.run(["gcc","-g","-O1","-w","-DHAVE_CONFIG_H","-I"+TMP+"/cfg"]+flags+["-c",s,"-o",o],check=True); return o
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one,srcs))
def csrc(d): return sorted(glob.glob(REPO+"/"+d+"/**/*.c",recursive=True))
LIBS=["-lpcre","-lssl","-lcrypto","-lpthread","-ldl","-lm"]
def commons(san=()): config(); return cc(csrc("src/viriatum_commons"),["-I"+REPO+"/src","-I"+REPO+"/src/viriatum_commons"]+list(san),"c")
def program(source,san=(),server=False):
    """compiles the C program beside this file against the commons library"""
    o=commons(san); inc=["-I"+REPO+"/src","-I"+REPO+"/src/viriatum","-I"+REPO+"/src/viriatum_commons"]
    if server: o+=cc(csrc("src/viriatum"),["-I"+REPO+"/src","-I"+REPO+"/src/viriatum","-Dmain=viriatum_main"]+list(san),"s")
    o+=cc([HERE+"/"+source],inc+list(san),"p")
    subprocess.run(["gcc","-rdynamic"]+list(san)+["-o",TMP+"/prog"]+o+LIBS,check=True); return TMP+"/prog"
def build(modules=()):
    o=commons()+cc(csrc("src/viriatum"),["-I"+REPO+"/src","-I"+REPO+"/src/viriatum"],"s")
    subprocess.run(["gcc","-rdynamic","-o",TMP+"/viriatum"]+o+LIBS,check=True)
    for m in modules:
        d="modules/mod_%s/src"%m
        o=cc(csrc(d),["-fPIC","-I"+REPO+"/src","-I"+REPO+"/"+d,"-I"+REPO+"/"+d+"/viriatum_mod_"+m,"-I/usr/include/lua5.1"],m)
        os.makedirs(TMP+"/mods",exist_ok=True)
        subprocess.run(["gcc","-shared","-o",TMP+"/mods/libviriatum_mod_%s.so"%m]+o+(["-llua5.1"] if m=="lua" else []),check=True)
class Server:
    def __init__(self,ini,files={},args=(),start=True):
        self.dir=tempfile.mkdtemp(dir=TMP)
        for d in ("etc","www","modules"): os.makedirs(self.dir+"/"+d)
        shutil.copytree(REPO+"/src/viriatum/resources/html/base/templates",self.dir+"/www/templates")
        for f in glob.glob(TMP+"/mods/*.so"): shutil.copy(f,self.dir+"/modules")
        s=socket.socket(); s.bind(("127.0.0.1",0)); self.port=s.getsockname()[1]; s.close()
        open(self.dir+"/etc/viriatum.ini","w").write(ini.replace("%DIR%",self.dir))
        for p,d in files.items(): self.put(p,d)
        self.args=["--port=%d"%self.port]+list(args)
        if start: self.start()
    def put(self,p,d,mtime=None):
        p=self.dir+"/"+p; os.makedirs(os.path.dirname(p),exist_ok=True)
        open(p,"wb").write(d if isinstance(d,bytes) else d.encode())
        if mtime: os.utime(p,(mtime,mtime))
    def start(self,wait=True):
        self.p=subprocess.Popen([TMP+"/viriatum"]+self.args,cwd=self.dir,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,preexec_fn=lambda: signal.alarm(120))
        atexit.register(self.stop)
        for _ in range(100 if wait else 0):
            try: socket.create_connection(("127.0.0.1",self.port),1).close(); break
            except OSError: time.sleep(0.05)
    def stop(self):
        if self.p.poll() is None: self.p.kill(); self.p.wait()
    def connect(self,rcvbuf=None):
        s=socket.socket()
        if rcvbuf: s.setsockopt(socket.SOL_SOCKET,socket.SO_RCVBUF,rcvbuf)
        s.settimeout(5); s.connect(("127.0.0.1",self.port)); return s
class Conn:
    def __init__(self,s): self.s=s; self.b=b""
    def send(self,*parts,gap=0.05):
        for n,p in enumerate(parts):
            if n: time.sleep(gap)
            self.s.sendall(p)
    def more(self):
        d=self.s.recv(65536)
        if not d: raise EOFError(self.b)
        self.b+=d
    def resp(self,head=False):
        """(status, headers, body) of the next response"""
        while b"\r\n\r\n" not in self.b: self.more()
        h,self.b=self.b.split(b"\r\n\r\n",1); L=h.split(b"\r\n"); st=int(L[0].split()[1])
        hd={l.split(b":",1)[0].decode().lower():l.split(b":",1)[1].strip().decode("latin1") for l in L[1:]}
        n=0 if st==304 else int(hd.get("content-length","0"))
        while len(self.b)<n: self.more()
        body,self.b=self.b[:n],self.b[n:]; return st,hd,body
    def closed(self):
        """True if the peer closed and sent nothing more"""
        try: return self.b==b"" and self.s.recv(10)==b""
        except socket.timeout: return False
        except ConnectionResetError: return True
def get(path,ka=True,method="GET",headers=""):
    return ("%s %s HTTP/1.1\r\nHost: x\r\nConnection: %s\r\n%s\r\n"%(method,path,"keep-alive" if ka else "close",headers)).encode("latin1")
def check(cond,what):
    if not cond: print("FAILED: "+what); sys.exit(1)
