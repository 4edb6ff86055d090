------------------------------- MODULE Proxy --------------------------------
(* A reverse proxy between its clients and the backends its locations name:  *)
(* what of a request reaches which backend, what of a backend's response     *)
(* reaches which client, and what becomes of both when either side breaks    *)
(* off. Every action is one observable event.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Locs      \* sequence of [pat, host, port]: disjoint prefixes of request targets
VARIABLES conns,    \* client connection -> its state
          backs,    \* backend connection -> its state
          slow,     \* backends do not take everything they are sent
          life      \* of the server: "up", "ending" or "ended"; modules shut down; resources held when idle
pvars == <<conns, backs, slow, life>>

Elems(s) == {s[i] : i \in 1..Len(s)}
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
SL == 47
-----------------------------------------------------------------------------
(* requests: [m, u, v, h, cid, n, ka]; responses: [st, v, h, cid, n, ...]    *)
(* a location is the one of the resource that is named, however it is written *)
FS == INSTANCE FileService
Question(u) == FS!FirstPos(u, 63)
PathOf(u) == IF Question(u) = 0 THEN u ELSE SubSeq(u, 1, Question(u) - 1)
QueryOf(u) == IF Question(u) = 0 THEN <<>> ELSE SubSeq(u, Question(u), Len(u))
Normal(p) == LET segs == FS!Segs(FS!Decode(p))
                 g == FS!Resolve(segs).st
             IN IF g = <<>> THEN <<SL>>
                ELSE FS!Join(g) \o (IF segs[Len(segs)] \in {<<>>, <<46>>, <<46, 46>>} THEN <<SL>> ELSE <<>>)
LocsFor(r) == {i \in 1..Len(Locs) : Prefix(Locs[i].pat, Normal(PathOf(r.u)))}
Proxied(r) == LocsFor(r) # {}
Loc(r) == Locs[CHOOSE i \in LocsFor(r) : TRUE]
Pass(r) == <<Loc(r).host, Loc(r).port>>
(* what follows the matched prefix, always a path; it is passed on as it is   *)
(* written, unless there is more than one way to write what has been matched  *)
Below(l, p) == LET k == IF l.pat # <<>> /\ l.pat[Len(l.pat)] = SL THEN Len(l.pat) - 1 ELSE Len(l.pat)
                   t == SubSeq(p, k + 1, Len(p))
               IN IF t = <<>> \/ t[1] # SL THEN <<SL>> \o t ELSE t
IsVirtual(r, u) == LET p == PathOf(r.u) IN
                     /\ QueryOf(u) = QueryOf(r.u)
                     /\ IF Prefix(Loc(r).pat, p) /\ Normal(p) = FS!Decode(p) THEN PathOf(u) = Below(Loc(r), p)
                        ELSE FS!Decode(PathOf(u)) = Below(Loc(r), Normal(p))
Marked(h) == <<<<"X-Viriatum-Proxy", "1">>>> \o h
(* m is what r becomes: of[..] are the contents the received body begins *)
IsRelayed(r, m) == /\ m.m = r.m /\ m.v = r.v /\ IsVirtual(r, m.u) /\ m.h = Marked(r.h)
                   /\ m.n = r.n /\ r.cid \in Elems(m.of)
Reason(st) == CASE st = 200 -> "OK" [] st = 201 -> "Created" [] st = 204 -> "No Content" [] st = 206 -> "Partial Content"
                [] st = 301 -> "Moved Permanently" [] st = 302 -> "Found" [] st = 304 -> "Not Modified"
                [] st = 400 -> "Bad Request" [] st = 404 -> "Not Found" [] st = 411 -> "Length Required"
                [] st = 412 -> "Precondition Failed" [] st = 416 -> "Requested Range Not Satisfiable"
                [] st = 500 -> "Internal Server Error" [] st = 503 -> "Service Unavailable" [] OTHER -> ""
SameHead(s, m) == /\ m.st = s.st /\ m.v = s.v /\ m.h = Marked(s.h)
                  /\ Reason(s.st) = "" \/ m.rs = Reason(s.st)
SameBody(s, m) == m.n = s.n /\ s.cid \in Elems(m.of)
BeginOfBody(s, m) == m.n <= s.n /\ s.cid \in Elems(m.of)
-----------------------------------------------------------------------------
NoB == -1
NewConn == [acc |-> FALSE, open |-> TRUE, q |-> <<>>, last |-> FALSE, fin |-> FALSE, rst |-> FALSE, blk |-> FALSE]
NewBack(c, p) == [c |-> c, pass |-> p, open |-> TRUE, fin |-> FALSE, rst |-> FALSE, bad |-> FALSE, ms |-> <<>>]
PInit == conns = <<>> /\ backs = <<>> /\ slow = FALSE /\ life = [up |-> "up", down |-> {}, idle |-> <<>>]
Runs == life.up = "up"

Open(c) == c \in DOMAIN conns /\ conns[c].open
Working(c) == Open(c) /\ conns[c].acc /\ conns[c].q # <<>> /\ ~conns[c].last
Cur(c) == Head(conns[c].q)
Broken(b) == backs[b].fin \/ backs[b].rst \/ backs[b].bad
SetCur(c, e) == conns' = [conns EXCEPT ![c].q = <<e>> \o Tail(@)]
(* the message of its backend that the client is to get next *)
Coming(c) == Cur(c).sent /\ Len(backs[Cur(c).b].ms) > Cur(c).k
Src(c) == backs[Cur(c).b].ms[Cur(c).k + 1]
IsWhole(s, b) == s.whole \/ (s.eof /\ s.head /\ (backs[b].fin \/ backs[b].rst))
Informs(s) == s.st \div 100 = 1
-----------------------------------------------------------------------------
(* the clients *)
Connect(c) == c \notin DOMAIN conns /\ conns' = Put(conns, c, NewConn) /\ UNCHANGED <<backs, slow, life>>
Accept(c) == life.up # "ended" /\ Open(c) /\ ~conns[c].acc /\ conns' = [conns EXCEPT ![c].acc = TRUE] /\ UNCHANGED <<backs, slow, life>>
(* the first byte of a request is handed to the network; then the last one *)
Begin(c, r) == /\ c \in DOMAIN conns
               /\ conns' = [conns EXCEPT ![c].q = Append(@, [r |-> r, whole |-> FALSE, b |-> NoB, sent |-> FALSE, ref |-> FALSE, k |-> 0])]
               /\ UNCHANGED <<backs, slow, life>>
Complete(c) == /\ c \in DOMAIN conns
               /\ LET n == Len(conns[c].q) IN n > 0 /\ conns' = [conns EXCEPT ![c].q[n].whole = TRUE]
               /\ UNCHANGED <<backs, slow, life>>
(* nothing more was to be answered on a connection that has been closed *)
CompleteLate(c) == /\ c \in DOMAIN conns /\ conns[c].q = <<>> /\ ~conns[c].open /\ UNCHANGED pvars
Fin(c) == c \in DOMAIN conns /\ conns' = [conns EXCEPT ![c].fin = TRUE] /\ UNCHANGED <<backs, slow, life>>
Rst(c) == c \in DOMAIN conns /\ conns' = [conns EXCEPT ![c].rst = TRUE] /\ UNCHANGED <<backs, slow, life>>
Window(c, on) == c \in DOMAIN conns /\ conns' = [conns EXCEPT ![c].blk = ~on] /\ UNCHANGED <<backs, slow, life>>
(* the backends *)
BAnswer(b, ms, bad) == /\ b \in DOMAIN backs
                       /\ backs' = [backs EXCEPT ![b].ms = ms, ![b].bad = @ \/ bad] /\ UNCHANGED <<conns, slow, life>>
BFin(b) == b \in DOMAIN backs /\ backs' = [backs EXCEPT ![b].fin = TRUE] /\ UNCHANGED <<conns, slow, life>>
BRst(b) == b \in DOMAIN backs /\ backs' = [backs EXCEPT ![b].rst = TRUE] /\ UNCHANGED <<conns, slow, life>>
Slow(on) == slow' = on /\ UNCHANGED <<conns, backs, life>>
-----------------------------------------------------------------------------
(* the proxy *)
Wants(c, p) == Working(c) /\ Proxied(Cur(c).r) /\ ~Cur(c).sent /\ Pass(Cur(c).r) = p
BConnectFor(c, b, p) == /\ b \notin DOMAIN backs
                        /\ Wants(c, p) /\ Cur(c).b = NoB
                        /\ backs' = Put(backs, b, NewBack(c, p)) /\ SetCur(c, [Cur(c) EXCEPT !.b = b])
                        /\ UNCHANGED <<slow, life>>
BRefusedFor(c, p) == /\ Wants(c, p) /\ Cur(c).b = NoB /\ ~Cur(c).ref /\ SetCur(c, [Cur(c) EXCEPT !.ref = TRUE])
                     /\ UNCHANGED <<backs, slow, life>>
(* it is not visible for whom a connection is made *)
BConnect(b, p) == \E c \in DOMAIN conns : BConnectFor(c, b, p)
BRefused(p) == \E c \in DOMAIN conns : BRefusedFor(c, p)
(* a whole request has reached a backend: the one that is due *)
BRequest(b, m) ==
  /\ b \in DOMAIN backs /\ backs[b].open
  /\ LET c == backs[b].c IN
     /\ Wants(c, backs[b].pass) /\ Cur(c).whole /\ Cur(c).b \in {b, NoB}
     /\ IsRelayed(Cur(c).r, m)
     /\ SetCur(c, [Cur(c) EXCEPT !.b = b, !.sent = TRUE])
     /\ backs' = [backs EXCEPT ![b].ms = <<>>]
  /\ UNCHANGED <<slow, life>>
(* a backend connection is not given up while its response is awaited, but for a reason *)
Serves(b, c) == Working(c) /\ Cur(c).b = b
BClose(b) == /\ b \in DOMAIN backs /\ backs[b].open
             /\ LET c == backs[b].c IN ~Runs \/ ~conns[c].open \/ conns[c].fin \/ conns[c].rst \/ Broken(b) \/ ~Serves(b, c)
             /\ backs' = [backs EXCEPT ![b].open = FALSE] /\ UNCHANGED <<conns, slow, life>>
Answered(c, keep) == conns' = [conns EXCEPT ![c].q = Tail(@), ![c].last = ~keep]
(* the proxy cannot get an answer *)
NoGateway(c) == LET e == Cur(c) IN
                  \/ e.ref
                  \/ e.b = NoB /\ \E b \in DOMAIN backs : backs[b].c = c /\ backs[b].pass = Pass(e.r) /\ Broken(b)
                  \/ /\ e.b # NoB /\ Broken(e.b)
                     /\ ~e.sent \/ backs[e.b].rst \/ (IF Coming(c) THEN Informs(Src(c)) \/ ~Src(c).head ELSE TRUE)
(* one whole response has reached a client *)
Respond(c, m) ==
  /\ Working(c)
  /\ LET e == Cur(c) r == e.r IN
     IF m.own
     THEN \/ /\ ~Proxied(r) /\ e.whole /\ m.st # 502 /\ m.ka = r.ka /\ Answered(c, r.ka)
          \/ /\ Proxied(r) /\ e.whole /\ m.st = 502 /\ NoGateway(c) /\ m.ka = r.ka /\ Answered(c, r.ka)
     ELSE /\ Proxied(r) /\ Coming(c)
          /\ LET s == Src(c) IN
             /\ SameHead(s, m)
             /\ \/ IsWhole(s, e.b) /\ SameBody(s, m)
                \/ s.eof /\ s.head /\ backs[e.b].rst /\ BeginOfBody(s, m)
             /\ IF Informs(s) THEN SetCur(c, [e EXCEPT !.k = @ + 1])
                ELSE Answered(c, s.ka /\ ~s.eof)
  /\ UNCHANGED <<backs, slow, life>>
(* what a client has of a response that is not whole is the beginning of it *)
IsPart(c, p) == /\ Working(c) /\ Proxied(Cur(c).r) /\ Coming(c) /\ Src(c).head
                /\ p.head => SameHead(Src(c), p) /\ BeginOfBody(Src(c), p)
IsPartOfOwn(c, p) == Working(c) /\ Cur(c).whole /\ (p.head => p.own)
(* a connection is closed after a response that does not keep it, or in the  *)
(* middle of one that the backend has not finished                           *)
CutOff(c) == /\ Working(c) /\ Cur(c).sent /\ Broken(Cur(c).b)
             /\ backs[Cur(c).b].rst \/ (Coming(c) /\ Src(c).head /\ ~IsWhole(Src(c), Cur(c).b))
Close(c, ps) == /\ Open(c) /\ conns[c].acc
                /\ ps # <<>> => IsPart(c, ps[1]) \/ conns[c].rst \/ (~Runs /\ IsPartOfOwn(c, ps[1]))
                /\ \/ conns[c].fin \/ conns[c].rst \/ ~Runs
                   \/ conns[c].last /\ ps = <<>>
                   \/ CutOff(c)
                /\ conns' = [conns EXCEPT ![c].open = FALSE] /\ UNCHANGED <<backs, slow, life>>
-----------------------------------------------------------------------------
(* nothing is left to do: all that has come from the backends has been passed *)
(* on, all that could be answered has been                                    *)
PartOf(ps, c) == {i \in 1..Len(ps) : ps[i].c = c}
Waiting(c, ps) ==
  /\ ~conns[c].last
  /\ IF conns[c].q = <<>> \/ ~Cur(c).whole THEN PartOf(ps, c) = {}
     ELSE /\ Proxied(Cur(c).r)
          /\ IF ~Cur(c).sent THEN slow /\ PartOf(ps, c) = {}
             ELSE /\ ~Broken(Cur(c).b)
                  /\ IF Coming(c) /\ Src(c).head
                     THEN /\ ~IsWhole(Src(c), Cur(c).b)
                          /\ \E i \in PartOf(ps, c) : ps[i].head /\ IsPart(c, ps[i]) /\ ps[i].n = Src(c).n
                     ELSE PartOf(ps, c) = {}
Settled(c, ps) == \/ ~conns[c].open
                  \/ /\ conns[c].acc /\ ~conns[c].fin /\ ~conns[c].rst
                     /\ IF conns[c].blk THEN \A i \in PartOf(ps, c) : IsPart(c, ps[i]) ELSE Waiting(c, ps)
(* nobody keeps a backend for a client that has left, nor one that has left *)
Kept(b) == backs[b].open => conns[backs[b].c].open /\ (~Broken(b) \/ conns[backs[b].c].blk)
Quiesce(ps, bps) == /\ \A c \in DOMAIN conns : Settled(c, ps)
                    /\ \A b \in DOMAIN backs : Kept(b)
                    /\ bps # <<>> => slow
                    /\ UNCHANGED pvars
-----------------------------------------------------------------------------
(* n bytes were read of one connection before the others had their turn     *)
Busy(n) == n <= 4194304 /\ UNCHANGED pvars
(* the resources held while there is neither a client nor a backend connection *)
(* never change                                                                *)
NoneThere == (\A c \in DOMAIN conns : ~conns[c].open) /\ (\A b \in DOMAIN backs : ~backs[b].open)
Gauge(g) == /\ IF ~NoneThere THEN UNCHANGED life
               ELSE IF life.idle = <<>> THEN life' = [life EXCEPT !.idle = g] ELSE life.idle = g /\ UNCHANGED life
            /\ UNCHANGED <<conns, backs, slow>>
(* the server is asked to terminate; what it still does before it next waits is *)
(* not determined; then everything is closed and everything is shut down once   *)
Terminate == Runs /\ life' = [life EXCEPT !.up = "ending"] /\ UNCHANGED <<conns, backs, slow>>
Round == life' = [life EXCEPT !.up = IF Runs THEN @ ELSE "ended"] /\ UNCHANGED <<conns, backs, slow>>
Stop(m) == ~Runs /\ m \notin life.down /\ life' = [life EXCEPT !.down = @ \cup {m}] /\ UNCHANGED <<conns, backs, slow>>
Exit(status, listeners, mods) ==
  /\ ~Runs /\ status = 0 /\ listeners = 0 /\ life.down = mods
  /\ \A c \in DOMAIN conns : conns[c].acc => ~conns[c].open
  /\ \A b \in DOMAIN backs : ~backs[b].open
  /\ UNCHANGED pvars
=============================================================================
