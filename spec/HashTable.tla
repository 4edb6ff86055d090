----------------------------- MODULE HashTable -----------------------------
(* Design of the hash map: open addressing with linear probing in a table    *)
(* that is enlarged when its load reaches three quarters, refining Map. Several  *)
(* keys share a hash. An overwritten key keeps its slot; growth re-inserts   *)
(* every entry without copying it.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Keys, Values, Hash, Initial, Factor, MaxSize
VARIABLES tab, cnt, ghost      \* table: slots 0..n-1, number of entries, the abstract map
vars == <<tab, cnt, ghost>>
N(t) == Cardinality(DOMAIN t)
Free == [used |-> FALSE, key |-> 0, val |-> 0]
Empty(n) == [i \in 0..(n - 1) |-> Free]
MaxLoad(n) == (n * 3) \div 4
Stop(t, i, k) == ~t[i].used \/ t[i].key = k
(* slot at which probing for k stops; probing ends because some slot is free *)
Probe(t, k) == LET n == N(t) h == Hash[k] % n
                   d == CHOOSE x \in 0..(n - 1) : Stop(t, (h + x) % n, k) /\ \A y \in 0..(x - 1) : ~Stop(t, (h + y) % n, k)
               IN (h + d) % n
Put(t, k, v) == [t EXCEPT ![Probe(t, k)] = [used |-> TRUE, key |-> k, val |-> v]]
RECURSIVE Rehash(_, _, _)
Rehash(t, u, i) == IF i = N(t) THEN u ELSE Rehash(t, IF t[i].used THEN Put(u, t[i].key, t[i].val) ELSE u, i + 1)
Init == tab = Empty(Initial) /\ cnt = 0 /\ ghost = <<>>
Grown == IF cnt >= MaxLoad(N(tab)) THEN Rehash(tab, Empty(N(tab) * Factor), 0) ELSE tab
Set(k, v) == LET t == Grown s == Probe(t, k) IN
             /\ tab' = Put(t, k, v)
             /\ cnt' = IF t[s].used THEN cnt ELSE cnt + 1
             /\ ghost' = (k :> v) @@ ghost
Next == \E k \in Keys, v \in Values : Set(k, v)
Spec == Init /\ [][Next]_vars
Bound == N(tab) <= MaxSize
LookupOf(k) == LET e == tab[Probe(tab, k)] IN IF e.used THEN e.val ELSE 0
AlwaysFree == \E i \in DOMAIN tab : ~tab[i].used
Refines == /\ cnt = Cardinality(DOMAIN ghost)
           /\ \A k \in Keys : LookupOf(k) = IF k \in DOMAIN ghost THEN ghost[k] ELSE 0
           /\ Cardinality({i \in DOMAIN tab : tab[i].used}) = cnt
=============================================================================
