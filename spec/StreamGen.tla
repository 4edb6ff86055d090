----------------------------- MODULE StreamGen ------------------------------
(* one test per transition of the stream's state graph, see MapGen           *)
EXTENDS Stream, TLC, Json
CONSTANTS MaxLen, MaxPos
VARIABLE h
Init == FInit /\ h = <<>>
Next == \/ \E m \in Modes : FOpen(m) /\ h' = Append(h, <<"open", m>>)
        \/ FClose /\ h' = Append(h, <<"close">>)
        \/ \E n \in 1..3 : FRead(n, ReadOf(n)) /\ h' = Append(h, <<"read", n>>)
        \/ \E w \in {<<1>>, <<2>>, <<1, 2>>} : FWrite(w) /\ h' = Append(h, <<"write", w>>)
        \/ \E p \in 0..MaxPos : FSeek(p) /\ h' = Append(h, <<"seek", p>>)
        \/ FFlush /\ h' = Append(h, <<"flush">>)
        \/ FSize(Len(data)) /\ h' = Append(h, <<"size">>)
        \/ FTell(pos) /\ h' = Append(h, <<"tell">>)
Bound == Len(data) <= MaxLen /\ pos <= MaxPos
View == svars
Emit == PrintT(<<"GEN", ToJson(h')>>)
Spec == Init /\ [][Next]_<<svars, h>>
=============================================================================
