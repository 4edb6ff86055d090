----------------------------- MODULE ListTrace -----------------------------
EXTENDS ListSpec, Batch
tvars == <<lvars, tid, l>>
Observed == /\ E.n = Len(lst')
            /\ Has("f") => E.f = lst' /\ E.i = lst' /\ E.b = Reverse(lst')
Act == \/ Is("app") /\ App(E.a)
       \/ Is("appf") /\ AppFront(E.a)
       \/ Is("appi") /\ AppIndex(E.a, E.b1)
       \/ Is("remv") /\ RemValue(E.a)
       \/ Is("remi") /\ RemIndex(E.a)
       \/ Is("get") /\ GetAt(E.a, E.r)
       \/ Is("nget") /\ GetAt(E.a, E.r)
       \/ Is("pop") /\ Pop(E.r)
       \/ Is("popt") /\ PopTop(E.r)
       \/ Is("peek") /\ GetAt(0, E.r)
       \/ Is("npeek") /\ GetAt(0, E.r)
       \/ Is("peekt") /\ GetAt(Len(lst) - 1, E.r)
       \/ Is("npeekt") /\ GetAt(Len(lst) - 1, E.r)
       \/ Is("clear") /\ Clear
       \/ Is("sort") /\ Has("f") /\ SortTo(E.c, E.f)
       \/ Is("seq") /\ E.r = lst /\ UNCHANGED lvars
       \/ Is("npop") /\ NPop(E.r)
       \/ Is("npopt") /\ NPopTop(E.r)
       \/ Is("nrem") /\ NRem(E.a, E.r)
       \/ Is("nput") /\ NPut(E.r)
       \/ Is("nputf") /\ NPutFront(E.r)
       \/ Is("nputi") /\ NPutIndex(E.a, E.r)
       \/ Is("noop") /\ UNCHANGED lvars
TInit == BInit /\ LInit
TNext == Step /\ Act /\ Observed
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
