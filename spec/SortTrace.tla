----------------------------- MODULE SortTrace -----------------------------
(* sorting the range lo..hi-1 of an array: an ordered permutation of it, the *)
(* rest of the array untouched                                               *)
EXTENDS ListSpec, Batch
tvars == <<lvars, tid, l>>
TInit == BInit /\ LInit
Part(s) == SubSeq(s, E.lo + 1, E.hi)
TNext == /\ Step /\ Is("sort") /\ UNCHANGED lvars
         /\ Len(E.r) = Len(E.s)
         /\ \A i \in 1..Len(E.s) : (i <= E.lo \/ i > E.hi) => E.r[i] = E.s[i]
         /\ Permutation(Part(E.s), Part(E.r)) /\ Ordered(E.c, Part(E.r))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
