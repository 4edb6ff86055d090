------------------------------ MODULE ListGen -------------------------------
(* one test per transition of the list's state graph within small bounds     *)
EXTENDS ListSpec, Json
CONSTANTS Values, MaxLen
VARIABLE h
Idx == 0..(MaxLen + 1)
Do(op, act) == act /\ h' = Append(h, op)
Init == LInit /\ h = <<>>
Next == \/ \E v \in Values : \/ Do(<<"app", v>>, App(v)) \/ Do(<<"appf", v>>, AppFront(v))
                             \/ Do(<<"remv", v>>, RemValue(v))
                             \/ \E i \in 0..Len(lst) : Do(<<"appi", v, i>>, AppIndex(v, i))
        \/ \E i \in Idx : \/ Do(<<"remi", i>>, RemIndex(i)) \/ Do(<<"get", i>>, GetAt(i, At(i)))
                          \/ Do(<<"nget", i>>, GetAt(i, At(i))) \/ Do(<<"nrem", i>>, NRem(i, At(i)))
                          \/ Do(<<"nputi", i>>, NPutIndex(i, held))
        \/ Do(<<"pop">>, Pop(At(0))) \/ Do(<<"popt">>, PopTop(At(Len(lst) - 1)))
        \/ Do(<<"npop">>, NPop(At(0))) \/ Do(<<"npopt">>, NPopTop(At(Len(lst) - 1)))
        \/ Do(<<"nput">>, NPut(held)) \/ Do(<<"nputf">>, NPutFront(held))
        \/ Do(<<"clear">>, Clear)
        \/ Do(<<"peek">>, UNCHANGED lvars) \/ Do(<<"peekt">>, UNCHANGED lvars)
        \/ Do(<<"npeek">>, UNCHANGED lvars) \/ Do(<<"npeekt">>, UNCHANGED lvars) \/ Do(<<"seq">>, UNCHANGED lvars)
Bound == Len(lst) <= MaxLen
View == lvars
Emit == PrintT(<<"GEN", ToJson(h')>>)
Spec == Init /\ [][Next]_<<lvars, h>>
SortGen == \A c \in {"v", "z"} : TRUE
=============================================================================
