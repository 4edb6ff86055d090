-------------------------------- MODULE Map --------------------------------
(* The hash map and the sort map: a finite map from keys to values, the      *)
(* latter remembering the order in which its keys were first set. There is   *)
(* no removal. Value 0 is what a lookup of a key never set returns (NULL).   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES map, ord
mvars == <<map, ord>>
MInit == map = <<>> /\ ord = <<>>
Lookup(k) == IF k \in DOMAIN map THEN map[k] ELSE 0
Set(k, v) == /\ map' = (k :> v) @@ map
             /\ ord' = IF k \in DOMAIN map THEN ord ELSE Append(ord, k)
Get(k, r) == r = Lookup(k) /\ UNCHANGED mvars
Size == Cardinality(DOMAIN map)
Entry(k) == <<k, map[k]>>
(* s visits every entry exactly once, in any order *)
VisitsAll(s) == /\ Len(s) = Size
                /\ {s[i] : i \in 1..Len(s)} = {Entry(k) : k \in DOMAIN map}
(* s visits them in order of first insertion *)
VisitsInOrder(s) == s = [i \in 1..Len(ord) |-> Entry(ord[i])]
(* properties of the specification itself *)
OrdIsDomain == /\ Len(ord) = Size
               /\ {ord[i] : i \in 1..Len(ord)} = DOMAIN map
SetIsVisible == [][\A k \in DOMAIN map : k \in DOMAIN map']_mvars
OrderStable == [][\E n \in 0..1 : Len(ord') = Len(ord) + n /\ SubSeq(ord', 1, Len(ord)) = ord]_mvars
=============================================================================
