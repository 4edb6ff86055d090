--------------------------- MODULE HttpParserGen ---------------------------
(* one shortest input for every kind of position of the parser *)
EXTENDS HttpParser, TLC, Json
CONSTANT Alphabet
VARIABLES s, log, n
Words == {CONN, PCONN, CLEN, TENC, UPGR, CHUNKED, KEEP, CLOSE}
LowS(v) == [k \in 1..Len(v) |-> Lower(v[k])]
(* how far a text follows one of the words the parser knows *)
Follows(v, ws) == IF \E w \in ws : IsPrefix(LowS(v), w) THEN <<LowS(v)>> ELSE IF \E w \in ws : IsWord(w, v) THEN <<32, LowS(SubSeq(v, 1, 4))>> ELSE <<0, IF Len(v) < 2 THEN 0 ELSE 1>>
Cl(x) == IF x < 0 THEN 0 ELSE IF x < 2 THEN 1 + x ELSE IF x < 10 THEN 3 ELSE IF x < 214748364 THEN 4 ELSE IF x = 214748364 THEN 5 ELSE 6
View == <<s.st, IF s.st = "method" THEN s.m ELSE <<>>,
  IF s.st = "field" THEN Follows(s.cur, Words \ {CHUNKED, KEEP, CLOSE}) ELSE IF s.st = "value" THEN Follows(s.cur, CASE s.hs = "connection" -> {KEEP, CLOSE} [] s.hs = "coding" -> {CHUNKED} [] OTHER -> {}) ELSE <<>>,
  IF s.st \in {"value0", "value", "valueLF", "fold"} THEN s.hs ELSE "",
  IF s.st \in {"value", "fold"} /\ s.hs = "length" THEN Cl(s.cl) ELSE 0,
  IF s.st \in {"field0", "endLF", "field", "value0", "value", "valueLF", "fold"} THEN <<Cl(s.cl) > 0, s.chunked, s.keep, s.close, s.trail>> ELSE <<>>,
  IF s.st \in {"body", "cdata"} THEN (IF s.left > 1 THEN 2 ELSE s.left) ELSE 0,
  IF s.st \in {"csize", "csizeLF", "cext"} THEN (IF s.left = 0 THEN 0 ELSE IF s.left < 4 THEN 1 ELSE IF s.left < 134217727 THEN 2 ELSE IF s.left = 134217727 THEN 3 ELSE 4) ELSE 0,
  IF s.st \in {"maj", "min"} THEN (IF s.maj < 99 /\ s.min < 99 THEN 0 ELSE IF s.maj < 1000 /\ s.min < 999 THEN 1 ELSE 2) ELSE 0,
  s.m = Methods[6] /\ s.st \in {"target0", "host"}>>
Init == s = Start /\ log = <<>> /\ n = 0
Next == ~Stopped(s) /\ \E b \in Alphabet : s' = Byte(s, b) /\ s'.st /= "error" /\ log' = Append(log, b) /\ n' = 0
Spec == Init /\ [][Next]_<<s, log, n>>
Show == PrintT(<<"GEN", ToJson([s |-> s.st, d |-> log])>>)
=============================================================================
