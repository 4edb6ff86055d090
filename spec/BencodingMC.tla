---------------------------- MODULE BencodingMC -----------------------------
(* every document over a small alphabet, and every value built step by step: *)
(* what is accepted is canonical, and every value survives                   *)
EXTENDS Bencoding
CONSTANTS Alphabet, MaxDoc, MaxVal
VARIABLES kind, x
Docs == UNION {[1..n -> Alphabet] : n \in 0..MaxDoc}
Atoms == {<<105, 1, 48>>, <<105, 2, 45, 49>>, <<115, 0>>, <<115, 1, 97>>, <<115, 1, 101>>, <<115, 2, 49, 58>>}
Keys == {<<115, 0>>, <<115, 1, 97>>, <<115, 1, 101>>}
Init == (kind = "doc" /\ x \in Docs) \/ (kind = "val" /\ x \in Atoms)
(* values grow by being wrapped and joined *)
Next == /\ kind = "val" /\ Len(x) <= MaxVal /\ UNCHANGED kind
        /\ \/ x' = <<108>> \o x \o <<101>>
           \/ \E a \in Atoms : x' = <<108>> \o a \o x \o <<101>>
           \/ \E k \in Keys : x' = <<100>> \o k \o x \o <<101>>
           \/ \E k, q \in Keys, a \in Atoms : k # q /\ x' = <<100>> \o k \o x \o q \o a \o <<101>>
Spec == Init /\ [][Next]_<<kind, x>>
Canonical == kind = "doc" => LET d == Decode(x) IN d.ok /\ ~d.spaces => Encode(d.v) = x
Survives == kind = "val" => LET d == Decode(Encode(x)) IN d.ok /\ d.v = x
Cut == kind = "val" => LET s == Encode(x) IN \A n \in 0..(Len(s) - 1) : ~Decode(SubSeq(s, 1, n)).ok
=============================================================================
