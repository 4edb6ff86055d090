--------------------------- MODULE HttpParserMC ----------------------------
(* Messages put together from their elements, as the grammar has them, and    *)
(* delivered one byte at a time: the machine reports exactly those elements,  *)
(* completes with the last byte and not before, and with no byte left.        *)
EXTENDS HttpParser
CONSTANT Deep
VARIABLES msg, want, s, i
vars == <<msg, want, s, i>>
CRLF == <<13, 10>>
Eols == IF Deep THEN {CRLF, <<10>>} ELSE {CRLF}
Targets == {<<47>>, <<42>>, <<47, 97, 63, 98, 35, 99, 35>>, <<104, 58, 47, 47, 104, 58, 56>>, <<104, 58, 47, 47, 97, 45, 98, 47, 120>>, <<47, 200, 63, 63>>}
Meths == IF Deep THEN {Methods[k] : k \in 1..24} ELSE {Methods[k] : k \in {1, 2, 4, 9, 14, 20, 23, 24}}
(* (number text, value) of the version; none: 0.9 *)
Vers == {<<<<49, 46, 49>>, 1, 1>>, <<<<49, 46, 48>>, 1, 0>>, <<<<57, 57, 46, 57, 57, 57>>, 99, 999>>, <<<<>>, 0, 9>>}
(* a header: name, separator, value *)
SP == <<32>>
Plain == {<<<<65>>, SP, <<98, 99>>>>, <<<<88, 45, 121, 32>>, <<>>, <<58, 32, 59>>>>, <<<<65>>, <<32, 9>>, <<>>>>, <<CONN, SP, <<120>>>>, <<TENC, SP, <<99, 104, 117>>>>}
Keeps == {<<CONN, SP, KEEP>>, <<PCONN, <<>>, [k \in 1..11 |-> IF k = 11 THEN 32 ELSE IF k = 5 THEN 45 ELSE KEEP[k] - 32]>>}
Closes == {<<CONN, SP, CLOSE>>}
Lens == {<<CLEN, SP, <<48>>, 0>>, <<CLEN, SP, <<51>>, 3>>, <<<<67, 79>> \o SubSeq(CLEN, 3, 14), <<9>>, <<49, 32, 50, 32>>, 12>>, <<CLEN, SP, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>, MaxInt>>}
Chs == {<<TENC, SP, CHUNKED>>}
Heads == {<<>>} \cup {<<h>> : h \in Plain \cup Keeps \cup Closes \cup {<<n[1], n[2], n[3]>> : n \in Lens}}
         \cup {<<h, g>> : h \in Keeps \cup Closes, g \in {<<n[1], n[2], n[3]>> : n \in Lens} \cup (IF Deep THEN Plain ELSE {})} \cup {<<g, h>> : h \in Keeps, g \in Closes}
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
HeadText(hs, eol) == Cat([k \in 1..Len(hs) |-> hs[k][1] \o <<58>> \o hs[k][2] \o hs[k][3] \o eol])
HeadEvents(hs) == Cat([k \in 1..Len(hs) |-> <<[k |-> "field", v |-> hs[k][1]], [k |-> "value", v |-> hs[k][3]]>>])
LenOf(hs) == LET ks == {k \in 1..Len(hs) : \E n \in Lens : n[1] = hs[k][1] /\ n[3] = hs[k][3]} IN
             IF ks = {} THEN -1 ELSE LET k == CHOOSE k \in ks : TRUE IN (CHOOSE n \in Lens : n[1] = hs[k][1] /\ n[3] = hs[k][3])[4]
Bodies == {<<120>>, <<13, 10, 13>>}
Chunked == {<<<<>>, <<>>, <<>>>>, <<<<<<49>>>>, <<<<120>>>>, <<>>>>, <<<<<<48, 50, 59, 120>>, <<49, 32>>>>, <<<<13, 10>>, <<48>>>>, <<>>>>, <<<<<<51>>>>, <<<<97, 98, 99>>>>, <<<<84>>, SP, <<118>>>>>>}
ChunkText(c, eol) == Cat([k \in 1..Len(c[1]) |-> c[1][k] \o CRLF \o c[2][k] \o CRLF]) \o <<48>> \o CRLF \o (IF c[3] = <<>> THEN <<>> ELSE HeadText(<<c[3]>>, eol)) \o eol
Init == \E m \in Meths, t \in Targets, v \in Vers, e \in Eols, hs \in Heads, ch \in {<<>>} \cup {<<c>> : c \in Chunked}, lead \in {<<>>, <<13, 10>>} :
          /\ (m /= Methods[2] => t = <<47>> /\ hs = <<>> /\ ch = <<>>) /\ (t /= <<47>> => hs = <<>>) /\ (v[2] = 99 => hs = <<>>) /\ (v[1] = <<>> => t # <<104, 58, 47, 47, 104, 58, 56>>) /\ (lead /= <<>> => hs = <<>>)
          /\ LET len == LenOf(hs)
                 all == hs \o (IF ch = <<>> THEN <<>> ELSE <<CHOOSE h \in Chs : TRUE>>)
                 text == IF ch /= <<>> THEN ChunkText(ch[1], e) ELSE IF len > 0 /\ len < 20 THEN SubSeq(<<13, 10, 120, 0, 255, 71, 69, 84, 32, 47, 13, 10>>, 1, len) ELSE <<>>
                 body == IF ch = <<>> THEN text ELSE Cat(ch[1][2]) IN
             /\ len /= MaxInt \/ ch /= <<>>
             /\ msg = lead \o m \o <<32>> \o t \o (IF v[1] = <<>> THEN e ELSE <<32, 72, 84, 84, 80, 47>> \o v[1] \o e) \o HeadText(all, e) \o e \o text
             /\ want = <<[k |-> "begin"], [k |-> "url", v |-> t, m |-> MethodNo(m)], [k |-> "line", maj |-> v[2], min |-> v[3]]>> \o HeadEvents(all)
                       \o <<[k |-> "headers", keep |-> \E k \in 1..Len(hs) : hs[k] \in Keeps, close |-> \E k \in 1..Len(hs) : hs[k] \in Closes, chunked |-> ch /= <<>>, cl |-> len]>>
                       \o (IF body = <<>> THEN <<>> ELSE <<[k |-> "body", v |-> body]>>) \o (IF ch = <<>> \/ ch[1][3] = <<>> THEN <<>> ELSE HeadEvents(<<ch[1][3]>>)) \o <<[k |-> "complete"]>>
        /\ s = Start /\ i = 0
Next == i < Len(msg) /\ s' = Byte(s, msg[i + 1]) /\ i' = i + 1 /\ UNCHANGED <<msg, want>>
Spec == Init /\ [][Next]_vars
Reports == i = Len(msg) => s.st = "done" /\ s.ev = want
NotBefore == i < Len(msg) => s.st \notin {"done", "error"}
(* elements are reported in order: what is out is a prefix of what is wanted, but for a body under way *)
InOrder == \A k \in 1..Len(s.ev) : k <= Len(want) /\ (s.ev[k] = want[k] \/ (k = Len(s.ev) /\ s.ev[k].k = "body" /\ want[k].k = "body" /\ IsPrefix(s.ev[k].v, want[k].v)))
=============================================================================
