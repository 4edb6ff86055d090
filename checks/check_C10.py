import itertools
def flat(v):
    if isinstance(v,int): return ["i%d"%v]
    if isinstance(v,bytes): return ["s"+v.hex()]
    if isinstance(v,list): return ["l"]+[t for x in v for t in flat(x)]+["e"]
    return ["d"]+[t for k,x in v.items() for t in flat(k)+flat(x)]+["e"]
LONG=[b"n"*63,b"n"*64,b"m"*65,b"p"*127,b"q"*128,b"r"*200]
ENV={b"i":7,b"neg":-12,b"max":2147483647,b"min":-2147483648,b"zero":0,b"s":b"text",b"empty":b"",b"bin":bytes(range(1,256)),b"seven":b"7",
  b"Upper":b"upper",b"Zed":3,b"_u":b"u",b"i2":7,b"s2":b"text",b"tag":b"${out value=i /}",
  b"l":[1,2,3],b"one":[7],b"none":[],b"words":[b"a",b"",b"b",b"text"],b"ll":[[1,2],[],[3]],
  b"rows":[{b"type":1,b"name":b"dir",b"size":0,b"sub":[1,2]},{b"type":2,b"name":b"file",b"size":123456,b"sub":[]},{b"name":b"odd",b"sub":[{b"k":b"v"}]},{b"type":b"1",b"name":b"",b"sub":[b"x"]}],
  b"m":{b"a":1,b"b":b"two",b"n":{b"deep":{b"er":b"found",b"i":7}},b"l":[9,8]},b"mixed":[1,b"1",7,b"7"],
  **{n:b"v%d"%len(n) for n in LONG}}
NAMES=[k for k in ENV if k not in(b"l",b"one",b"none",b"words",b"ll",b"rows",b"m",b"mixed")]+[b"m.a",b"m.b",b"m.n.deep.er",b"m.n.deep.i",b"m.zz",b"m.n.zz",b"i.x",b"s.x.y",b"zz",b"zz.a",b"M",b"deep.er",b"x"*90,b"l.a"]
LISTS=[b"l",b"one",b"none",b"words",b"mixed",b"zz",b"i",b"s",b"m",b"m.l",b"m.zz"]
TEXTS=[b"$",b"$$",b"$$$",b"{",b"}",b"{}",b"$ {",b"${"[:1]+b"a{",b"/",b"/}",b"\"",b"\xff",b"\xfe\xff",b"\n",b"\r\n",b" ",b"text",b"\xc3\xa9",b"a$",b"=",b"x=\"y\"",b"</p>",b"$}",b"{$",b"\x01\x80\x7f"]
def q(s): return b'"'+s+b'"'
def check(c):
    r=c.rnd; t=c.thorough
    c.mc("TemplateMC","TemplateMC.cfg" if not t else "TemplateMC4.cfg")
    def text(): return r.choice(TEXTS) if r.random()<0.8 else bytes(r.choice([x for x in range(1,256) if x not in(36,)]) for _ in range(r.choice([1,3,40,300])))
    def operand(names):
        k=r.random()
        if k<0.6: return r.choice(names)
        if k<0.75: return str(r.choice([0,1,2,3,7,12,123456,2147483647])).encode()
        return q(r.choice([b"",b"text",b"a b",b"}",b"/}",b"${x}",b"=",b"7",b"1",b"i",b"\xff",b"s"*126,b"s"*127,b"s"*128,b"w"*300]))
    def end(): return r.choice([b"",b" ",b"  "])
    def out(names): return b"${out "+r.choice([b"",b" "])+b"value="+operand(names)+end()+b"/}"
    def par(ps):
        ps=list(ps)
        if r.random()<0.3: r.shuffle(ps)
        if r.random()<0.1: ps.insert(r.randrange(len(ps)+1),b"extra="+r.choice([b"1",b"x",q(b"y z")]))
        return r.choice([b" ",b"  "]).join(ps)
    def body(d,names,lists,n=None):
        s=b""
        for _ in range(r.choice([0,1,2,3,5]) if n is None else n):
            p=piece(d,names,lists)
            if s[-1:]==b"$" and p[:1]==b"{": s+=b"."
            s+=p
        return s
    def piece(d,names,lists):
        k=r.random()
        if d==0 or k<0.3: return text()
        if k<0.55: return out(names)
        if k<0.8:
            l=r.choice(lists+[b"rows",b"ll"]); it=r.choice([b"e",b"row",b"i",b"x",b"item",b"l"])
            n2=names+[it]*4; l2=list(lists)
            if l==b"rows": n2=n2+[it+b".type",it+b".name",it+b".size",it+b".zz"]*2; l2=l2+[it+b".sub"]*3
            if l==b"ll": l2=l2+[it]*4
            # an item that hides a list or holds a collection is not printed
            if l in(b"rows",b"ll") or l.endswith(b".sub"): n2=[x for x in n2 if x!=it]
            return b"${foreach "+par([b"item="+it,b"from="+l])+r.choice([b"",b" "])+b"}"+body(d-1,n2,l2)+b"${/foreach}"
        ps=[b"item="+r.choice(names),b"value="+operand(names)]
        if r.random()<0.7: ps.append(b"operator=eq")
        if r.random()<0.03: ps=ps[1:]
        if r.random()<0.03: ps=ps[:1]
        return b"${if "+par(ps)+r.choice([b"",b" "])+b"}"+body(d-1,names,lists)+b"${/if}"
    docs=[b"",b"a",b"$",b"${out value=i/}",b"${out value=i /}",b"x${out value=\"a\"/}",b"${out value=\"a\" /}y",b"${foreach item=e from=l}${out value=e /}${/foreach}",b"${foreach item=e from=l}${out value=e/},${/foreach}$",
      b"${if item=i value=7}yes${/if}",b"${if item=i value=8}no${/if}",b"${if item=s value=\"text\"}yes${/if}",b"${if item=s value=s2}yes${/if}",b"${if item=zz value=zz}no${/if}",b"${if item=seven value=7}no${/if}",
      b"${foreach item=entry from=rows}${if item=entry.type value=1 operator=eq}<${out value=entry.name /}>${/if}${if item=entry.type value=2 operator=eq}[${out value=entry.name /}]${/if}${/foreach}",
      b"${out value=Upper /}${out value=Zed /}${out value=_u /}",b"\xff${out value=i /}\xff",b"${unknown x=1 /}a",b"${unknown /}a",b"${out /}a",b"${out x=1 /}b",b"${foreach item=e}x${/foreach}c",b"${foreach from=l}x${/foreach}c"]
    docs+=[b"".join(x) for n in(1,2,3) for x in itertools.product([b"$",b"{",b"}",b"\xff",b"${out value=i /}",b"${out value=s/}",b"a"],repeat=n) if b"${" not in b"".join(y if y[:2]!=b"${" else b"." for y in x)]
    for n in LONG: docs+=[b"${out value="+n+b" /}",b"${out value="+n+b"/}|",b"${out "+n+b"=1 value=i /}",b"${foreach item="+n+b" from=l}${out value="+n+b" /}${/foreach}",b"${if item="+n+b" value="+q(b"v%d"%len(n))+b"}y${/if}",b"${out value="+q(n)+b" /}",b"${"+n+b" a=1 /}z"]
    docs+=[bytes([x])*k for x in range(1,256) for k in(1,2)]+[b"${out value=i /}"+bytes([x]) for x in range(1,256)]
    for k in(1,10,40): docs+=[b"${if item=i value=7}"*k+b"in"+b"${/if}"*k, b"${foreach item=e from=one}"*k+b"${out value=e /}"+b"${/foreach}"*k]
    docs.append(b"z"*(20000 if t else 6000)+b"${out value=i /}")
    for _ in range(6000 if t else 900): docs.append(body(r.choice([1,2,3,4]),NAMES,LISTS,r.choice([1,2,3,6])))
    env=",".join(flat(ENV)); sc=[]; per=30
    docs=[d for d in docs if len(d)<30000]
    for i in range(0,len(docs),per): sc.append(("t%d"%i,["t",env]+["x"+d.hex() for d in docs[i:i+per]]))
    small={b"a":b"1",b"l":[]}
    sc.append(("small",["t",",".join(flat(small))]+["x"+d.hex() for d in docs[:60]])); sc.append(("nothing",["t","d,e"]+["x"+d.hex() for d in docs[:60]]))
    c.note("templates",len(docs))
    c.assume.append("well formed templates: balanced blocks, parameters separated by spaces, no zero bytes; lists and maps are not printed")
    c.unit_validate("u_tmpl",sc,"TemplateTrace")
