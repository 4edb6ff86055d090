------------------------ MODULE PriorityQueueTrace -------------------------
EXTENDS PriorityQueue, Batch
tvars == <<qvars, tid, l>>
C == Traces[tid].cmp
TInit == BInit /\ QInit
TNext == /\ Step
         /\ \/ Is("push") /\ Push(E.v)
            \/ Is("pop") /\ Pop(C, E.r)
         /\ E.n = Cardinality(q')
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
