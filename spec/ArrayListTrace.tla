--------------------------- MODULE ArrayListTrace ---------------------------
EXTENDS ArrayList, Batch
tvars == <<arr, tid, l>>
TInit == BInit /\ AInit
TNext == Step /\ ((Is("set") /\ ASet(E.x, E.v)) \/ (Is("get") /\ AGet(E.x, E.r)))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
