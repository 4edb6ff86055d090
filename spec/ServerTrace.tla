---------------------------- MODULE ServerTrace -----------------------------
EXTENDS Server, Batch
SiteRecs == ndJsonDeserialize("site.ndjson")
TheSite(i) == SiteRecs[i]
FsOf(rec) == LET ix == [p \in {rec.fs[i].p : i \in 1..Len(rec.fs)} |-> CHOOSE i \in 1..Len(rec.fs) : rec.fs[i].p = p]
             IN [p \in DOMAIN ix |-> rec.fs[ix[p]]]
FsAll == [i \in 1..Len(SiteRecs) |-> FsOf(SiteRecs[i])]
TheFs(i) == FsAll[i]
Act == \/ Is("conn") /\ Connect(E.c)
       \/ Is("acc") /\ Accept(E.c)
       \/ Is("req") /\ Deliver(E.c, E.r)
       \/ Is("fs") /\ Mutate(E.p, E.e)
       \/ Is("rsp") /\ Respond(E.c, E.e)
       \/ Is("cl") /\ Close(E.c, E.part)
       \/ Is("wild") /\ Wild(E.c)
       \/ Is("rsp") /\ RespondWild(E.c, E.e)
       \/ Is("hs") /\ Handshake(E.c, E.cert)
       \/ Is("tlserr") /\ Garbled(E.c)
       \/ Is("fin") /\ Fin(E.c)
       \/ Is("rst") /\ Rst(E.c)
       \/ Is("cap") /\ Limit(E.n)
       \/ Is("win") /\ Window(E.c, E.on)
       \/ Is("q") /\ Quiesce(Elems(E.part))
       \/ Is("busy") /\ Busy(E.n)
       \/ Is("gauge") /\ Gauge(E.g)
       \/ Is("term") /\ Terminate
       \/ Is("exit") /\ Exit(E.status, E.listeners, Elems(E.mods))
       \/ Is("round") /\ Round
       \/ Is("stop") /\ Stop(E.m)
TInit == BInit /\ SInit(Traces[tid].site)
TNext == Step /\ Act
TSpec == TInit /\ [][TNext]_<<svars, tid, l>>
=============================================================================
