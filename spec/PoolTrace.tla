----------------------------- MODULE PoolTrace ------------------------------
EXTENDS Pool, Batch
tvars == <<live, tid, l>>
TInit == BInit /\ PInit
TNext == /\ Step
         /\ \/ Is("alloc") /\ Alloc(E.r)
            \/ Is("free") /\ Release(E.r)
         /\ E.ov = 0       \* no two live blocks share a byte of their full size
         /\ E.bad = 0      \* and none was moved or written by the pool
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
