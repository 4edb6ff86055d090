"""inputs of the text formats through the driver u_text, judged by spec/Text.tla"""
import itertools
def x(b): return "x"+bytes(b).hex()
def strings(alpha,n):
    for k in range(n+1):
        for t in itertools.product(alpha,repeat=k): yield b"".join(t)
def check(c,mode,inputs,per=60,info=None):
    """inputs: byte strings, in traces of `per`; info(k) adds to the event of the k-th"""
    inputs=list(inputs); sc=[]; base={}
    for n,i in enumerate(range(0,len(inputs),per)):
        sc.append(("%s%d"%(mode,n),[mode]+[x(t) for t in inputs[i:i+per]])); base["%s%d"%(mode,n)]=i
    def post(r):
        if info:
            for j,e in enumerate(r["ev"]): e.update(info(base[r["id"]]+j))
        return {"id":r["id"],"ev":r["ev"]}
    c.note("inputs",{mode:len(inputs)})
    return c.unit_validate("u_text",sc,"TextTrace",post=post)
