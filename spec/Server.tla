------------------------------- MODULE Server -------------------------------
(* The server as its clients see it: connections, the requests delivered on   *)
(* them, the responses sent, closing, the document tree changing underneath,  *)
(* and termination. Every action is one observable event.                     *)
EXTENDS FileService, HttpHead, TLC

CONSTANTS Site(_), FsBase(_)     \* the configured site and its initial document tree
VARIABLES sid,    \* which site
          mut,    \* changed places of the document tree
          conns,  \* connection -> its state
          vers,   \* place -> modification time -> validator announced for it
          up,     \* "up"; "ending" once asked to terminate; "ended" after that round of events
          down,   \* modules shut down so far
          idle,   \* resources held when nobody was connected
          cap     \* how many connections the system lets it have at once (0: any number)
svars == <<sid, mut, conns, vers, up, down, idle, cap>>

Look(p) == IF p \in DOMAIN mut THEN mut[p] ELSE IF p \in DOMAIN FsBase(sid) THEN FsBase(sid)[p] ELSE None
Kids(d) == LET pre == Append(d, SL)
               ps == {p \in (DOMAIN mut) \cup DOMAIN FsBase(sid) :
                        IsPre(pre, p) /\ Len(p) > Len(pre) /\ SL \notin Elems(SubSeq(p, Len(pre) + 1, Len(p))) /\ Look(p).t # "x"}
           IN {<<SubSeq(p, Len(pre) + 1, Len(p)), Look(p).t>> : p \in ps}
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
KnownVers(p) == IF p \in DOMAIN vers THEN vers[p] ELSE <<>>
Others(p, mt) == {KnownVers(p)[m] : m \in (DOMAIN KnownVers(p)) \ {mt}}

SInit(s) == /\ sid = s /\ mut = <<>> /\ conns = <<>> /\ vers = <<>> /\ up = "up" /\ down = {} /\ idle = <<>> /\ cap = 0

New == [acc |-> FALSE, open |-> TRUE, q |-> <<>>, last |-> FALSE, fin |-> FALSE, rst |-> FALSE, blk |-> FALSE, wild |-> FALSE, hs |-> FALSE]
Open(c) == c \in DOMAIN conns /\ conns[c].open
(* the system gives only so many descriptors *)
Room == cap = 0 \/ Cardinality({c \in DOMAIN conns : conns[c].acc /\ conns[c].open}) < cap
Limit(n) == cap' = n /\ UNCHANGED <<sid, mut, conns, vers, up, down, idle>>
Connect(c) == c \notin DOMAIN conns /\ conns' = Put(conns, c, New) /\ UNCHANGED <<sid, mut, vers, up, down, idle, cap>>
Accept(c) == /\ up # "ended" /\ Open(c) /\ ~conns[c].acc /\ Room
             /\ conns' = [conns EXCEPT ![c].acc = TRUE] /\ UNCHANGED <<sid, mut, vers, up, down, idle, cap>>
(* a whole request (or something that is none) has been handed to the network *)
Deliver(c, r) == /\ c \in DOMAIN conns
                 /\ conns' = [conns EXCEPT ![c].q = Append(@, [r |-> r, d |-> FALSE])]
                 /\ UNCHANGED <<sid, mut, vers, up, down, idle, cap>>
(* encrypted service: the client has learnt the server's key, and it is the   *)
(* configured one                                                             *)
Secure == Fld(Site(sid), "secure") /\ Site(sid).secure
Handshake(c, cert) == /\ Secure /\ Open(c) /\ conns[c].acc /\ ~conns[c].hs /\ cert
                      /\ conns' = [conns EXCEPT ![c].hs = TRUE] /\ UNCHANGED <<sid, mut, vers, up, down, idle, cap>>
(* what arrived was not what a TLS peer may send; one that is not itself       *)
(* broken never sees that                                                     *)
Garbled(c) == Secure /\ c \in DOMAIN conns /\ (conns[c].wild \/ conns[c].fin \/ conns[c].rst) = TRUE /\ UNCHANGED svars
MaySee(c) == Secure => conns[c].hs
Window(c, on) == /\ c \in DOMAIN conns
                 /\ conns' = [conns EXCEPT ![c].blk = ~on] /\ UNCHANGED <<sid, mut, vers, up, down, idle, cap>>
(* whatever this client sends need not be requests: it may be answered and   *)
(* closed in any way, as long as nobody else notices                         *)
Wild(c) == c \in DOMAIN conns /\ conns' = [conns EXCEPT ![c].wild = TRUE] /\ UNCHANGED <<sid, mut, vers, up, down, idle, cap>>
RespondWild(c, e) == /\ Open(c) /\ conns[c].acc /\ conns[c].wild /\ MaySee(c) /\ e.len = e.bl
                     /\ (e.st >= 400 /\ e.bl > 0 => e.st \in Elems(e.err))
                     /\ (Fld(e, "head") => WellFormedHead(e.head, e.st, e.bl))
                     /\ UNCHANGED svars
Fin(c) == c \in DOMAIN conns /\ conns' = [conns EXCEPT ![c].fin = TRUE] /\ UNCHANGED <<sid, mut, vers, up, down, idle, cap>>
Rst(c) == c \in DOMAIN conns /\ conns' = [conns EXCEPT ![c].rst = TRUE] /\ UNCHANGED <<sid, mut, vers, up, down, idle, cap>>
(* a change of the document tree: requests already delivered may see it or not *)
Mutate(p, ent) ==
  /\ mut' = Put(mut, p, ent)
  /\ conns' = [c \in DOMAIN conns |-> [conns[c] EXCEPT !.q = [i \in 1..Len(@) |-> [@[i] EXCEPT !.d = TRUE]]]]
  /\ UNCHANGED <<sid, vers, up, down, idle, cap>>

(* the validator of a place: one per modification time, different for different ones *)
Learn(p, mt, tag) ==
  /\ tag \notin Others(p, mt)
  /\ mt \in DOMAIN KnownVers(p) => KnownVers(p)[mt] = tag
  /\ vers' = Put(vers, p, Put(KnownVers(p), mt, tag))
FileResponse(e, r, x) ==
  LET mt == x.ent.mt
      knows == mt \in DOMAIN KnownVers(x.p)
      tag == IF knows THEN KnownVers(x.p)[mt] ELSE ""
  IN IF ~Fld(r, "inm") THEN FileAnswer(e, r, x, FALSE) /\ IF e.st = 200 THEN Learn(x.p, mt, e.et) ELSE UNCHANGED vers
     ELSE IF knows THEN FileAnswer(e, r, x, r.inm = tag) /\ IF e.st = 200 THEN Learn(x.p, mt, e.et) ELSE UNCHANGED vers
     ELSE \/ FileAnswer(e, r, x, TRUE) /\ Learn(x.p, mt, r.inm)
          \/ FileAnswer(e, r, x, FALSE) /\ IF e.st = 200 THEN e.et # r.inm /\ Learn(x.p, mt, e.et) ELSE UNCHANGED vers
(* some scripts succeed only every so many requests, of which r is the n-th   *)
ScriptFails(r) == IF Fld(Site(sid).lua, "every") THEN r.n % Site(sid).lua.every # 0 ELSE Site(sid).lua.fails
Answer(e, r, x) ==
  CASE x.k = "file" -> FileResponse(e, r, x)
    [] x.k = "dir" -> /\ e.st = 200 /\ Fld(e, "ls") /\ ListsAs(e.ls, Kids(x.p)) /\ e.cr = <<>> /\ UNCHANGED vers
    [] x.k = "redir" -> RedirectAnswer(e, x) /\ UNCHANGED vers
    [] x.k = "none" -> ErrorPage(e, 404) /\ UNCHANGED vers
    [] x.k = "auth" -> ErrorPage(e, 401) /\ e.wa /\ UNCHANGED vers
    [] x.k = "outside" -> OutsideAnswer(Site(sid), e) /\ UNCHANGED vers
    [] x.k = "default" -> e.st = 200 /\ e.hello /\ UNCHANGED vers
    [] x.k = "gif" -> e.st = 200 /\ e.gif /\ UNCHANGED vers
    [] x.k = "diag" -> /\ e.st = 200 /\ Fld(e, "diag") /\ UNCHANGED vers
                       (* the listening sockets are connections too *)
                       /\ e.diag = Site(sid).listeners + Cardinality({c \in DOMAIN conns : conns[c].open /\ conns[c].acc})
    (* exactly what the script wrote, or, when it failed, an error *)
    [] x.k = "lua" -> /\ UNCHANGED vers
                      /\ IF ScriptFails(r) THEN ErrorPage(e, 500)
                         ELSE e.st = 200 /\ e.len = Site(sid).lua.n /\ (e.len = 0 \/ BodyAt(e, Site(sid).lua.cid, 0))
    [] OTHER -> FALSE

(* kaany: the request names several options, whether it asks to be kept is not determined *)
KeepsAsAsked(e, r) == e.ka = r.ka \/ Fld(r, "kaany")
(* the answer to a HEAD request ends with its head *)
IsHead(r) == ~r.bad /\ Fld(r, "m") /\ r.m = "HEAD"
(* one complete response, to the oldest request not answered yet *)
Respond(c, e) ==
  /\ Open(c) /\ conns[c].acc /\ MaySee(c) /\ conns[c].q # <<>> /\ ~conns[c].last
  /\ LET h == Head(conns[c].q) r == h.r IN
     /\ (IF IsHead(r) THEN e.bl = 0 ELSE e.len = e.bl)
     /\ (e.st >= 400 /\ e.bl > 0 => e.st \in Elems(e.err))
     /\ (Fld(e, "head") => WellFormedHead(e.head, e.st, e.len))
     /\ IF r.bad THEN e.st >= 400 /\ ~e.ka /\ UNCHANGED vers
        ELSE IF h.d THEN KeepsAsAsked(e, r) /\ UNCHANGED vers
        ELSE \E x \in Denotes(Site(sid), Look, r) :
               /\ IF IsHead(r) THEN UNCHANGED vers ELSE Answer(e, r, x)
               /\ KeepsAsAsked(e, r) \/ (x.k = "lua" /\ ~ScriptFails(r))   \* scripts write their own header lines
     /\ conns' = [conns EXCEPT ![c].q = Tail(@), ![c].last = r.bad \/ IF Fld(r, "kaany") THEN ~e.ka ELSE ~r.ka]
  /\ UNCHANGED <<sid, mut, up, down, idle, cap>>
(* part: some but not all of a response had been sent *)
MayClose(k, part) == \/ k.wild \/ k.fin \/ k.rst \/ up # "up"
                     \/ k.last /\ ~part
                     \/ ~k.last /\ k.q # <<>> /\ Head(k.q).r.bad /\ ~part
                     \/ k.q # <<>> /\ Head(k.q).d /\ part
Close(c, part) ==
  /\ Open(c) /\ conns[c].acc /\ MayClose(conns[c], part) = TRUE
  /\ conns' = [conns EXCEPT ![c].open = FALSE] /\ UNCHANGED <<sid, mut, vers, up, down, idle, cap>>
(* nothing is left to do: whatever could be answered has been, whatever had to be closed is *)
Settled(k, part) == \/ ~k.open \/ k.wild
                    \/ ~k.acc /\ ~Room
                    \/ /\ k.acc /\ ~k.fin /\ ~k.rst
                       /\ k.blk \/ (k.q = <<>> /\ ~k.last /\ ~part /\ (Secure => k.hs))
Quiesce(parts) == (\A c \in DOMAIN conns : Settled(conns[c], c \in parts)) = TRUE /\ UNCHANGED svars
(* n bytes were read of one connection before the others had their turn     *)
Busy(n) == n <= 4194304 /\ UNCHANGED svars
(* the resources held while nobody is connected never change *)
Gauge(g) == /\ IF \E c \in DOMAIN conns : conns[c].open THEN UNCHANGED idle
               ELSE IF idle = <<>> THEN idle' = g ELSE idle = g /\ UNCHANGED idle
            /\ UNCHANGED <<sid, mut, conns, vers, up, down, cap>>
Terminate == up = "up" /\ up' = "ending" /\ UNCHANGED <<sid, mut, conns, vers, down, idle, cap>>
(* the server waits for events again *)
Round == up' = (IF up = "up" THEN up ELSE "ended") /\ UNCHANGED <<sid, mut, conns, vers, down, idle, cap>>
(* a module is shut down, once *)
Stop(m) == up # "up" /\ m \notin down /\ down' = down \cup {m} /\ UNCHANGED <<sid, mut, conns, vers, up, idle, cap>>
Exit(status, listeners, mods) ==
  /\ up # "up" /\ status = 0 /\ listeners = 0 /\ down = mods
  /\ \A c \in DOMAIN conns : conns[c].acc => ~conns[c].open
  /\ UNCHANGED svars
=============================================================================
