------------------------- MODULE PriorityQueueGen --------------------------
(* the queue as a sorted list (the code's representation) refines the rule;  *)
(* one test per transition. Arrival numbers are hidden by the view.          *)
EXTENDS PriorityQueue, Json
CONSTANTS Values, MaxLen
VARIABLES h, s          \* history; the sorted list of the implementation
Insert(x) == LET n == Cardinality({i \in 1..Len(s) : Prio("v", s[i]) <= Prio("v", x)}) IN
             SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
Init == QInit /\ h = <<>> /\ s = <<>>
Next == \/ \E v \in Values : Push(v) /\ s' = Insert(v) /\ h' = Append(h, <<"push", v>>)
        \/ LET r == IF s = <<>> THEN 0 ELSE s[1] IN
           /\ Pop("v", r) /\ s' = (IF s = <<>> THEN s ELSE Tail(s)) /\ h' = Append(h, <<"pop">>)
Bound == Cardinality(q) <= MaxLen
View == s
Emit == PrintT(<<"GEN", ToJson(h')>>)
Spec == Init /\ [][Next]_<<qvars, h, s>>
(* the list of the code serves in the order of the rule: it could always pop *)
Agree == Len(s) = Cardinality(q) /\ (q # {} => s[1] = Best("v")[2])
=============================================================================
