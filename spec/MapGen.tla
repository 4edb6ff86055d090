------------------------------- MODULE MapGen -------------------------------
(* exhaustive check of Map and one test per transition of its state graph:   *)
(* the history h is hidden by the view, so that each abstract state is       *)
(* expanded once, with a shortest path to it                                 *)
EXTENDS Map, Json
CONSTANTS Keys, Values, MaxKeys
VARIABLE h
Init == MInit /\ h = <<>>
Next == \/ \E k \in Keys, v \in Values : Set(k, v) /\ h' = Append(h, <<"set", k, v>>)
        \/ \E k \in Keys : Get(k, Lookup(k)) /\ h' = Append(h, <<"get", k>>)
Bound == Size <= MaxKeys
View == mvars
Emit == PrintT(<<"GEN", ToJson(h')>>)
Spec == Init /\ [][Next]_<<mvars, h>>
=============================================================================
