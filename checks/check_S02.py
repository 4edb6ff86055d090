METHODS="DELETE GET HEAD POST PUT CONNECT OPTIONS TRACE COPY LOCK MKCOL MOVE PROPFIND PROPPATCH UNLOCK REPORT MKACTIVITY CHECKOUT MERGE M-SEARCH NOTIFY SUBSCRIBE UNSUBSCRIBE PATCH".split()
WORDS=b"connectionproxy-connectioncontent-lengthtransfer-encodingupgradechunkedkeep-aliveclose"
INTEREST=sorted(set(b"\0\t\n\r !\"#'()*,-./0159:;<=?@ADEGHMPTUVZ[\\_`acdehkopruwz{|}~\x7f\x80\xa0\xff"))
# endings that tell positions apart
ENDS=[b"\r\n\r\n",b" /x HTTP/1.1\r\n\r\n",b"n: keep-alive\r\nContent-Length: 2\r\n\r\nab",b"\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx\r\n0\r\n\r\n",b"1\r\nq\r\n0\r\nA: b\r\n\r\n",b":close\r\n:\r\n\r\nGET / HTTP/1.0\n\n",b" chunked\r\n\r\n0\r\n\r\n",b".1\nA:\n b\n\n"]
def check(c):
    r=c.rnd; t=c.thorough
    c.mc("HttpParserMC","HttpParserMC2.cfg" if t else "HttpParserMC.cfg")
    al=sorted(set("".join(METHODS).encode()+WORDS+b" \r\n\t:/?#*.0123456789;"))
    g=c.gen("HttpParserGen","SPECIFICATION Spec\nVIEW View\nCONSTANT Alphabet={%s}\nINVARIANT Show\nCHECK_DEADLOCK FALSE\n"%",".join(map(str,al)))
    st=[]
    def add(d,cuts=()): st.append("x%s:%s"%(bytes(d).hex(),",".join(map(str,cuts))) if d else None)
    # --- from every position of the machine: each byte, then an ending
    many={"field","value","value0","valueLF","fold"}
    pre=[bytes(x["d"]) for x in g if x["s"] not in many and x["s"]!="done"]
    rest=[bytes(x["d"]) for x in g if x["s"] in many]
    if not t:
        byst={}
        for x in g:
            if x["s"] in many: byst.setdefault(x["s"],[]).append(bytes(x["d"]))
        rest=[d for s,l in sorted(byst.items()) for d in r.sample(l,min(len(l),90))]
    n=0
    for k,p in enumerate(pre+rest):
        for b in (range(256) if t and k<len(pre) else INTEREST if k<len(pre) else r.sample(INTEREST,24 if t else 10)+[13,10,32]):
            e=r.choice(ENDS); d=p+bytes([b])+e; n+=1
            add(d,r.choice([(),(len(p),),(len(p)+1,),(len(p),len(p)+1)]))
    # --- messages of the grammar, their mutations and cuts
    def target():
        f=r.random()
        if f<.5: return r.choice([b"/",b"*",b"/a/b.html",b"/x?y=1&z",b"/?",b"/a#f",b"/a?b#c?d#e",b"/%20%c3",b"/\xc3\xa9",b"//",b"/a?b?c",b"/#",b"/'\"<>`{}|^\\"])
        if f<.8: return r.choice([b"http://h/",b"HTTP://a-b_c.D9:8080/p?q",b"ftp://h?q",b"x:ab",b"http://h:80",b"http://:1/",b"h:://x",b"s://h:1:2/"])
        return bytes(r.choice(b"/*ahZ09.-_:?#%&=@\x80\xfe!~ ") for _ in range(r.randrange(1,12)))
    def case(w): return bytes(x^0x20 if 65<=(x&~0x20)<=90 and r.random()<.3 else x for x in w)
    def header():
        f=r.random()
        if f<.25: n=case(r.choice([b"connection",b"proxy-connection"])); v=case(r.choice([b"keep-alive",b"close",b"keep-alive  ",b"close ",b"keep-alive, x",b"close,keep-alive",b"upgrade",b"keep-alivex",b"clos",b"keep-alive\t"]))
        elif f<.35: n=case(b"transfer-encoding"); v=case(r.choice([b"chunked",b"chunked ",b"gzip, chunked",b"chunke",b"chunkedx",b"identity"]))
        elif f<.5: n=case(b"content-length"); v=r.choice([b"0",b"1",b"5",b"12",b"007",b"1 0",b"3 ",b"2147483647",b"2147483648",b"99999999999",b"-1",b"+1",b"1a",b"0x5",b"4,4"])
        elif f<.6: n=r.choice([b"connectio",b"connectionx",b"content-lengt",b"content-length ",b"content_length",b"transfer-encodin",b"x-connection",b"con",b"cookie",b"connection ",b"proxy",b"upgrade",b"upgrad",b"transfer encoding"]); v=r.choice([b"keep-alive",b"3",b"close",b"chunked",b"7"])
        else: n=bytes(r.choice(b"aB-Z9!#$%&'*+.^_`|~ ") for _ in range(r.randrange(1,8))); v=bytes(r.choice(b"a B:;,\"\0\t\x80\xff=()") for _ in range(r.randrange(0,9)))
        if r.random()<.03: n+=bytes([r.choice(b"()<>@,;\\\"/[]?={}\0\x7f\x80\t")])
        return n,v
    def message(eolp=None):
        nl=lambda: eol if r.random()<.95 else r.choice([b"\n",b"\r\n"])
        eol=r.choice([b"\r\n"]*4+[b"\n"])
        m=r.choice(METHODS).encode()
        if r.random()<.06: m=r.choice([m[:-1],m+b"X",m.lower(),m[:2]+b"Q",b"GETT",b"",b"CHECKIN",b"COMMIT",b"MERGES",b"PUTT",b"PA",b"PROPFINDPATCH",b"UNSUBLOCK",b"M"])
        d=r.choice([b""]*6+[b"\r\n",b"\n\n"])+m+b" "*r.choice([1,1,1,2])+target()
        v=r.choice([b"1.1"]*6+[b"1.0"]*3+[b"2.0",b"0.9",b"10.10",b"999.999",b"1000.1",b"1.1000",b"1",b"1.",b".1",b"1.1 ",None])
        if v is not None: d+=b" "*r.choice([1,1,1,2])+r.choice([b"HTTP/"]*8+[b"HTTQ/",b"http/",b"ICE/",b"HTTPS/",b"HTTP "])+v
        d+=nl()
        hs=[header() for _ in range(r.choice([0,1,1,2,2,3,5]))]
        body=r.random(); extra=b""
        if body<.25: k=r.choice([0,1,2,9,10,30]); hs.append((b"Content-Length",b"%d"%k)); extra=bytes(r.choice(b"xyz\r\n\0\xff:0") for _ in range(k))
        elif body<.5:
            hs.append((b"Transfer-Encoding",b"chunked"))
            for _ in range(r.choice([0,1,2,3])):
                k=r.choice([1,1,2,5,15,16,17]); z=r.choice([b"%x"%k,b"%X"%k,b"0%x"%k])
                extra+=z+r.choice([b""]*5+[b";a=b",b" ;x",b";",b" "])+r.choice([b"\r\n"]*12+[b"\n",b"\rX"])+bytes(r.choice(b"xyz\r\n\0\xff:0") for _ in range(k))+r.choice([b"\r\n"]*12+[b"\n",b""])
            extra+=r.choice([b"0",b"0",b"00",b"0;e=f",b"80000000",b"7fffffff",b"fffffffff"])+b"\r\n"
            for _ in range(r.choice([0,0,1,2])): a,b=header(); extra+=a+b":"+b+nl()
            extra+=nl()
        for a,b in hs:
            d+=a+r.choice([b":",b": ",b": ",b":\t ",b" : "])+b
            for _ in range(r.choice([0]*8+[1,2])): d+=nl()+r.choice([b" ",b"\t",b"  "])+r.choice([b"",b"x",b"3",b"chunked",b"close",b"keep-alive"])
            d+=r.choice([b""]*20+[b"\r\r"])+nl()
        if r.random()<.05: d+=bytes(r.choice(b"abc ") for _ in range(3))+nl()
        return d+nl()+extra
    def cuts(d,k): return sorted(r.sample(range(1,len(d)),min(k,len(d)-1))) if len(d)>1 else ()
    for _ in range(12000 if t else 1500):
        d=b"".join(message() for _ in range(r.choice([1,1,1,2,3])))
        f=r.random()
        if f<.25:
            for _ in range(r.choice([1,1,2,3])):
                i=r.randrange(len(d)+1); x=bytes([r.choice(INTEREST)]); d=r.choice([d[:i]+x+d[i+1:],d[:i]+x+d[i:],d[:i]+d[i+1:],d[:i]])
        if not d: continue
        add(d,()); add(d,cuts(d,r.choice([1,1,2,4])) if r.random()<.8 else range(1,len(d)))
    # --- every place to cut, in a few messages that use everything
    for d in [b"\r\nPROPPATCH http://h.x:81/p?q#f HTTP/1.1\r\nConnection: keep-alive\r\nX: a\r\n b\r\nTransfer-Encoding:chunked\r\n\r\n3;e=1\r\nabc\r\n0\r\nT: v\r\n\r\nGET / HTTP/1.0\r\n\r\n",
              b"M-SEARCH * HTTP/1.1\nProxy-Connection: close \ncontent-length: 1 2\n\n0123456789ab",b"GET /old\r\nA:\r\n\r\n",b"POST /x?y HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 3\r\n\r\nabcPUT / HTTP/1.1\r\n\r\n"]:
        for i in range(1,len(d)): add(d,(i,))
        add(d,range(1,len(d)))
        for _ in range(300 if t else 30): add(d,cuts(d,r.choice([2,3,5])))
        if t:
            for i in range(1,len(d)-1): add(d,(i,i+1))
    st=[x for x in st if x]
    c.note("inputs",{"positions":len(pre)+len(rest),"position_byte":n,"streams":len(st)})
    c.assume+=["the tolerances of the parser (bare LF, any byte after CR, blank lines before a request, spaces in header names, lines without colon, folded values) belong to its grammar","the flags for an upgrade and for CONNECT are not observed"]
    per=40
    c.unit_validate("u_http",[("s%d"%i,st[i:i+per]) for i in range(0,len(st),per)],"HttpParserTrace")
