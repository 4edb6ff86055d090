----------------------------- MODULE ProxyTrace -----------------------------
EXTENDS Proxy, Batch
LocRecs == ndJsonDeserialize("locs.ndjson")
Act == \/ Is("conn") /\ Connect(E.c)
       \/ Is("acc") /\ Accept(E.c)
       \/ Is("begin") /\ Begin(E.c, E.r)
       \/ Is("whole") /\ (Complete(E.c) \/ CompleteLate(E.c))
       \/ Is("fin") /\ Fin(E.c)
       \/ Is("rst") /\ Rst(E.c)
       \/ Is("win") /\ Window(E.c, E.on)
       \/ Is("ban") /\ BAnswer(E.b, E.ms, E.bad)
       \/ Is("bfin") /\ BFin(E.b)
       \/ Is("brst") /\ BRst(E.b)
       \/ Is("slow") /\ Slow(E.on)
       \/ Is("bconn") /\ BConnect(E.b, <<E.host, E.port>>)
       \/ Is("bref") /\ BRefused(<<E.host, E.port>>)
       \/ Is("breq") /\ BRequest(E.b, E.m)
       \/ Is("bcl") /\ BClose(E.b)
       \/ Is("rsp") /\ Respond(E.c, E.m)
       \/ Is("cl") /\ Close(E.c, E.ps)
       \/ Is("busy") /\ Busy(E.n)
       \/ Is("gauge") /\ Gauge(E.g)
       \/ Is("term") /\ Terminate
       \/ Is("round") /\ Round
       \/ Is("stop") /\ Stop(E.m)
       \/ Is("exit") /\ Exit(E.status, E.listeners, Elems(E.mods))
       \/ Is("q") /\ Quiesce(E.ps, E.bps)
TInit == BInit /\ PInit
TNext == Step /\ Act
TSpec == TInit /\ [][TNext]_<<pvars, tid, l>>
=============================================================================
