---------------------------- MODULE VersionsGen -----------------------------
(* histories of one file: modified (a later time), rewritten at the same time,*)
(* removed and created again, fetched plainly and with every validator known  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxVer
VARIABLES ver, exists, got, last, h
vars == <<ver, exists, got, last, h>>
Do(op) == h' = Append(h, op) /\ last' = op[1]
Init == ver = 1 /\ exists = TRUE /\ got = {} /\ last = "" /\ h = <<>>
Modify == ver < MaxVer /\ ver' = ver + 1 /\ exists' = TRUE /\ Do(<<"mod", ver + 1>>) /\ UNCHANGED got
Remove == exists /\ exists' = FALSE /\ Do(<<"rm">>) /\ UNCHANGED <<ver, got>>
Get == /\ got' = (IF exists THEN got \cup {ver} ELSE got) /\ Do(<<"get">>) /\ UNCHANGED <<ver, exists>>
Cond == \E v \in 1..MaxVer : Do(<<"cond", v>>) /\ got' = (IF exists THEN got \cup {ver} ELSE got) /\ UNCHANGED <<ver, exists>>
CondRange == \E v \in 1..MaxVer : Do(<<"condr", v>>) /\ UNCHANGED <<ver, exists, got>>
Next == Modify \/ Remove \/ Get \/ Cond \/ CondRange
Spec == Init /\ [][Next]_vars
View == <<ver, exists, got, last>>
Bound == TRUE
Emit == PrintT(<<"GEN", ToJson(h')>>)
=============================================================================
