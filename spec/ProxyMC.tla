------------------------------ MODULE ProxyMC -------------------------------
(* The way the proxy works: a parser per client that is locked while its     *)
(* message is answered, one backend connection per client that is kept for   *)
(* the next request to the same place, a queue of pieces towards the client. *)
(* Every effect is an action of Proxy: one that Proxy does not allow makes   *)
(* the design bad. When nothing is left to do, all must be settled.          *)
EXTENDS Proxy
CONSTANTS NC, MaxReq, Kinds, Bad, SlowToo
VARIABLES cl, bk, ref, bad, hist
dvars == <<cl, bk, ref>>
vars == <<pvars, dvars, bad, hist>>
MCLocs == <<[pat |-> <<47, 49>>, host |-> "a", port |-> 1], [pat |-> <<47, 50>>, host |-> "b", port |-> 2]>>
Clients == 0..(NC - 1)
Places == {49, 50}
Req(c, i, l) == [m |-> "GET", u |-> <<47, l>>, v |-> "1.1", h |-> <<>>, cid |-> 10 * c + i, n |-> 1, ka |-> TRUE]
None == [none |-> TRUE]
Init == /\ PInit /\ bad = FALSE /\ hist = <<>> /\ ref = FALSE
        /\ cl = <<>> /\ bk = <<>>
H(x) == hist' = Append(hist, x)
Emit(A) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED pvars
-----------------------------------------------------------------------------
(* the environment *)
Fresh == [rx |-> <<>>, n |-> 0, lock |-> FALSE, hb |-> NoB, pend |-> FALSE, out |-> <<>>, got |-> <<>>]
EConn(c) == /\ c \notin DOMAIN conns /\ (c > 0 => c - 1 \in DOMAIN conns)
            /\ Connect(c) /\ cl' = Put(cl, c, Fresh) /\ UNCHANGED <<bk, ref, bad>> /\ H(<<"conn", c>>)
Sends(c) == Open(c) /\ ~conns[c].fin /\ ~conns[c].rst
Partial(c) == LET q == conns[c].q IN q # <<>> /\ ~q[Len(q)].whole
EBegin(c, l) == /\ Sends(c) /\ ~Partial(c) /\ cl[c].n < MaxReq
                /\ Begin(c, Req(c, cl[c].n + 1, l))
                /\ cl' = [cl EXCEPT ![c].n = @ + 1] /\ UNCHANGED <<bk, ref, bad>> /\ H(<<"begin", c, l>>)
EEnd(c) == /\ Sends(c) /\ Partial(c) /\ Complete(c)
           /\ cl' = [cl EXCEPT ![c].rx = Append(@, conns[c].q[Len(conns[c].q)].r)] /\ UNCHANGED <<bk, ref, bad>> /\ H(<<"end", c>>)
EFin(c) == Sends(c) /\ Fin(c) /\ UNCHANGED <<dvars, bad>> /\ H(<<"fin", c>>)
ERst(c) == Open(c) /\ ~conns[c].rst /\ Rst(c) /\ UNCHANGED <<dvars, bad>> /\ H(<<"rst", c>>)
EWin(c) == Sends(c) /\ Window(c, conns[c].blk) /\ UNCHANGED <<dvars, bad>> /\ H(<<"win", c, conns[c].blk>>)
(* a backend answers in two parts, the head and the rest *)
M(b, k, whole) == [head |-> TRUE, whole |-> whole, eof |-> k = "eof", st |-> IF k = "info" THEN 100 ELSE 200, v |-> "1.1", h |-> <<>>,
                   cid |-> 50 + b, n |-> IF whole \/ k = "eofd" THEN 1 ELSE 0, ka |-> k = "keep"]
CanSay(b) == b \in DOMAIN backs /\ backs[b].open /\ bk[b].heard /\ ~backs[b].fin /\ ~backs[b].rst
ms(b) == backs[b].ms
LastM(b) == ms(b)[Len(ms(b))]
Said(b, m2, p, x) == BAnswer(b, m2, x) /\ bk' = [bk EXCEPT ![b].rx = Append(@, p)] /\ UNCHANGED <<cl, ref, bad>>
Finals(b) == {i \in 1..Len(ms(b)) : ms(b)[i].st # 100}
EHead(b, k) == /\ CanSay(b) /\ ~backs[b].bad /\ k # "info" /\ Finals(b) = {}
               /\ LET m == [M(b, k, FALSE) EXCEPT !.n = 0] IN Said(b, Append(ms(b), m), [t |-> "h", m |-> m], FALSE) /\ H(<<"head", bk[b].cid, k>>)
EInfo(b) == /\ CanSay(b) /\ ~backs[b].bad /\ "info" \in Kinds /\ ms(b) = <<>>
            /\ LET m == [M(b, "info", TRUE) EXCEPT !.n = 0] IN Said(b, <<m>>, [t |-> "i", m |-> m], FALSE) /\ H(<<"info", bk[b].cid>>)
ERest(b) == /\ CanSay(b) /\ ~backs[b].bad /\ Finals(b) # {} /\ LastM(b).n = 0
            /\ LET m == [LastM(b) EXCEPT !.n = 1, !.whole = ~@ /\ ~LastM(b).eof]
               IN Said(b, SubSeq(ms(b), 1, Len(ms(b)) - 1) \o <<m>>, [t |-> IF m.eof THEN "d" ELSE "e", m |-> m], FALSE) /\ H(<<"rest", bk[b].cid>>)
EBad(b) == /\ Bad /\ CanSay(b) /\ ~backs[b].bad /\ (Finals(b) # {} => ms(b)[Len(ms(b))].whole)
           /\ Said(b, ms(b), [t |-> "x"], TRUE) /\ H(<<"bad", bk[b].cid>>)
EBFin(b) == b \in DOMAIN backs /\ backs[b].open /\ ~backs[b].fin /\ ~backs[b].rst /\ bk[b].heard /\ BFin(b) /\ UNCHANGED <<dvars, bad>> /\ H(<<"bfin", bk[b].cid>>)
EBRst(b) == b \in DOMAIN backs /\ backs[b].open /\ ~backs[b].rst /\ bk[b].heard /\ BRst(b) /\ UNCHANGED <<dvars, bad>> /\ H(<<"brst", bk[b].cid>>)
ERef == ref' = ~ref /\ UNCHANGED <<pvars, cl, bk, bad>> /\ H(<<"ref", ~ref>>)
ESlow == SlowToo /\ Slow(~slow) /\ UNCHANGED <<dvars, bad>> /\ H(<<"slow", ~slow>>)
Env == \/ \E c \in Clients : EConn(c) \/ (\E l \in Places : EBegin(c, l)) \/ EEnd(c) \/ EFin(c) \/ ERst(c) \/ EWin(c)
       \/ \E b \in DOMAIN backs : (\E k \in Kinds : EHead(b, k)) \/ EInfo(b) \/ ERest(b) \/ EBad(b) \/ EBFin(b) \/ EBRst(b)
       \/ ERef \/ ESlow
-----------------------------------------------------------------------------
(* the proxy *)
Alive(c) == Open(c) /\ conns[c].acc
PassOf(r) == Pass(r)
Push(c, ps) == [cl EXCEPT ![c].out = @ \o ps]
IAccept(c) == Open(c) /\ ~conns[c].acc /\ Emit(Accept(c)) /\ UNCHANGED dvars
(* a whole request is there and no other one is being answered *)
Ready(c) == Alive(c) /\ ~cl[c].lock /\ cl[c].rx # <<>>
Holds(c) == cl[c].hb # NoB
NoGatewayOut == <<[t |-> "own"], [t |-> "rel"]>>
IDrop(c) == /\ Ready(c) /\ Holds(c) /\ backs[cl[c].hb].pass # Pass(Head(cl[c].rx))
            /\ Emit(BClose(cl[c].hb)) /\ cl' = [cl EXCEPT ![c].hb = NoB] /\ UNCHANGED <<bk, ref>>
IConnect(c) == /\ Ready(c) /\ ~Holds(c)
               /\ LET r == Head(cl[c].rx) b == Cardinality(DOMAIN backs) IN
                  IF ref THEN /\ Emit(BRefusedFor(c, Pass(r))) /\ UNCHANGED <<bk, ref>>
                              /\ cl' = [cl EXCEPT ![c].rx = Tail(@), ![c].lock = TRUE, ![c].out = @ \o NoGatewayOut]
                  ELSE /\ Emit(BConnectFor(c, b, Pass(r))) /\ UNCHANGED ref
                       /\ cl' = [cl EXCEPT ![c].hb = b]
                       /\ bk' = Put(bk, b, [c |-> c, rx |-> <<>>, req |-> None, heard |-> FALSE, hd |-> FALSE, cid |-> 0])
IForward(c) == /\ Ready(c) /\ Holds(c) /\ backs[cl[c].hb].pass = Pass(Head(cl[c].rx))
               /\ bk' = [bk EXCEPT ![cl[c].hb].req = Head(cl[c].rx), ![cl[c].hb].hd = FALSE]
               /\ cl' = [cl EXCEPT ![c].rx = Tail(@), ![c].lock = TRUE, ![c].pend = TRUE]
               /\ UNCHANGED <<pvars, ref, bad>>
IWrite(b) == /\ backs[b].open /\ conns[bk[b].c].open /\ bk[b].req # None /\ ~slow /\ ~backs[b].rst
             /\ LET r == bk[b].req IN Emit(BRequest(b, [m |-> r.m, u |-> <<47>>, v |-> r.v, h |-> Marked(r.h), n |-> r.n, of |-> <<r.cid>>]))
             /\ bk' = [bk EXCEPT ![b].req = None, ![b].heard = TRUE, ![b].cid = bk[b].req.cid] /\ UNCHANGED <<cl, ref>>
(* one piece from the backend; what is not awaited makes the backend be dropped *)
Drop(b) == Emit(BClose(b)) /\ bk' = [bk EXCEPT ![b].rx = <<>>, ![b].req = None]
IRead(b) == /\ backs[b].open /\ conns[bk[b].c].open /\ bk[b].rx # <<>> /\ ~backs[b].rst
            /\ LET c == bk[b].c p == Head(bk[b].rx) IN
               IF p.t = "x" \/ ~cl[c].pend
               THEN /\ Drop(b) /\ UNCHANGED ref
                    /\ cl' = [cl EXCEPT ![c].hb = NoB, ![c].pend = FALSE,
                              ![c].out = @ \o IF ~cl[c].pend THEN <<>> ELSE IF bk[b].hd THEN <<[t |-> "close"]>> ELSE NoGatewayOut]
               ELSE /\ UNCHANGED <<pvars, ref, bad>>
                    /\ bk' = [bk EXCEPT ![b].rx = Tail(@), ![b].hd = @ \/ p.t = "h"]
                    /\ cl' = [cl EXCEPT ![c].out = @ \o <<p>> \o (IF p.t = "e" THEN <<[t |-> IF p.m.ka THEN "rel" ELSE "close"]>> ELSE <<>>),
                                        ![c].pend = @ /\ p.t # "e"]
(* the end of the backend connection *)
IGone(b) == /\ backs[b].open /\ conns[bk[b].c].open /\ (backs[b].rst \/ (backs[b].fin /\ bk[b].rx = <<>>))
            /\ Drop(b) /\ UNCHANGED ref
            /\ LET c == bk[b].c IN
               cl' = [cl EXCEPT ![c].hb = NoB, ![c].pend = FALSE,
                      ![c].out = @ \o IF ~cl[c].pend THEN <<>> ELSE IF bk[b].hd THEN <<[t |-> "end"], [t |-> "close"]>> ELSE NoGatewayOut]
(* pieces to the client *)
Msg(m) == [own |-> FALSE, head |-> TRUE, st |-> m.st, v |-> m.v, rs |-> Reason(m.st), h |-> Marked(m.h), n |-> m.n, of |-> <<m.cid>>, ka |-> m.ka]
OwnMsg == [own |-> TRUE, head |-> TRUE, st |-> 502, v |-> "1.1", rs |-> "", h |-> <<>>, n |-> 1, of |-> <<>>, ka |-> TRUE]
PartsOf(c) == IF cl[c].got = <<>> THEN <<>> ELSE <<[c |-> c] @@ Msg(cl[c].got[1])>>
IClosed(c) == /\ Emit(Close(c, PartsOf(c)))
              /\ cl' = [cl EXCEPT ![c].out = <<>>, ![c].rx = <<>>, ![c].got = <<>>, ![c].pend = FALSE, ![c].hb = NoB] /\ UNCHANGED bk
IFlush(c) ==
  /\ Alive(c) /\ ~conns[c].blk /\ ~conns[c].rst /\ cl[c].out # <<>> /\ UNCHANGED ref
  /\ LET p == Head(cl[c].out)
         t == [cl EXCEPT ![c].out = Tail(@)] IN
     CASE p.t = "own" -> Emit(Respond(c, OwnMsg)) /\ cl' = t /\ UNCHANGED bk
       [] p.t \in {"i", "e"} -> Emit(Respond(c, Msg(p.m))) /\ cl' = [t EXCEPT ![c].got = <<>>] /\ UNCHANGED bk
       [] p.t \in {"h", "d"} -> UNCHANGED <<pvars, bad, bk>> /\ cl' = [t EXCEPT ![c].got = <<p.m>>]
       [] p.t = "end" -> /\ IF cl[c].got # <<>> /\ cl[c].got[1].eof THEN Emit(Respond(c, Msg(cl[c].got[1]))) /\ cl' = [t EXCEPT ![c].got = <<>>]
                            ELSE UNCHANGED <<pvars, bad>> /\ cl' = t
                         /\ UNCHANGED bk
       [] p.t = "rel" -> UNCHANGED <<pvars, bad, bk>> /\ cl' = [t EXCEPT ![c].lock = FALSE]
       [] p.t = "close" -> IClosed(c)
ILeave(c) == Alive(c) /\ (conns[c].fin \/ conns[c].rst) /\ UNCHANGED ref /\ IClosed(c)
IOrphan(b) == backs[b].open /\ ~conns[bk[b].c].open /\ Drop(b) /\ UNCHANGED <<cl, ref>>
Impl == \/ \E c \in DOMAIN conns : IAccept(c) \/ IDrop(c) \/ IConnect(c) \/ IForward(c) \/ IFlush(c) \/ ILeave(c)
        \/ \E b \in DOMAIN backs : IWrite(b) \/ IRead(b) \/ IGone(b) \/ IOrphan(b)
Next == ~bad /\ ((Env) \/ (Impl /\ UNCHANGED hist))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Allowed == ~bad
AllParts == LET RECURSIVE P(_)
                P(c) == IF c >= NC THEN <<>> ELSE (IF c \in DOMAIN cl THEN PartsOf(c) ELSE <<>>) \o P(c + 1)
            IN P(0)
Quiet == ~ENABLED Impl
NothingLeft == Quiet => /\ \A c \in DOMAIN conns : Settled(c, AllParts)
                        /\ \A b \in DOMAIN backs : Kept(b)
Few == Len(hist) <= 8
View == <<pvars, dvars, bad>>
=============================================================================
