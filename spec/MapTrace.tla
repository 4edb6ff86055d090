----------------------------- MODULE MapTrace ------------------------------
EXTENDS Map, Batch
CONSTANT Ordered   \* TRUE for the sort map
tvars == <<mvars, tid, l>>
Visits(s) == IF Ordered THEN VisitsInOrder(s) ELSE VisitsAll(s)
Counts == /\ E.n = Cardinality(DOMAIN map')
          /\ Has("ln") => E.ln = Len(ord') /\ E.sn = Len(ord')
TSet == Is("set") /\ Set(E.k, E.v)
TGet == Is("get") /\ Get(E.k, E.r)
TIter == (Is("iter") \/ Is("reiter")) /\ Visits(E.s) /\ UNCHANGED mvars
(* the key iterator of integer keyed maps: their numbers *)
KeyOf(k) == SubSeq(k, 2, Len(k))
TKeys == /\ Is("keys") /\ UNCHANGED mvars
         /\ IF Ordered THEN E.s = [i \in 1..Len(ord) |-> KeyOf(ord[i])]
            ELSE Len(E.s) = Size /\ {E.s[i] : i \in 1..Len(E.s)} = {KeyOf(k) : k \in DOMAIN map}
TInit == BInit /\ MInit
TNext == Step /\ (TSet \/ TGet \/ TIter \/ TKeys) /\ Counts
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
