-------------------------------- MODULE Pool --------------------------------
(* The memory pool as its callers see it: the set of live blocks.            *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLE live
PInit == live = {}
Range(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Range(s)) = Len(s)
(* blocks handed out are not live ones, nor handed out twice *)
Alloc(s) == Distinct(s) /\ Range(s) \cap live = {} /\ live' = live \cup Range(s)
Release(s) == Distinct(s) /\ Range(s) \subseteq live /\ live' = live \ Range(s)
=============================================================================
