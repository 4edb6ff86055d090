------------------------------ MODULE HttpHead ------------------------------
(* The head of an HTTP/1.x message: a status line, header lines and an empty  *)
(* line, from which a client can tell where the message ends. A head is given *)
(* as the lines between its CR LF pairs, each a sequence of bytes.            *)
EXTENDS Integers, Sequences, FiniteSets
TokenBytes == (48..57) \cup (65..90) \cup (97..122) \cup {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
Dig(b) == b \in 48..57
LeastOf(S) == CHOOSE i \in S : \A j \in S : i <= j
NameLength == <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>
NameConnection == <<99, 111, 110, 110, 101, 99, 116, 105, 111, 110>>
NameCoding == <<116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103>>
NameIs(l, name) == /\ Len(l) > Len(name) /\ l[Len(name) + 1] = 58
                   /\ \A i \in 1..Len(name) : l[i] = name[i] \/ l[i] = name[i] - 32
RECURSIVE Dec(_, _)
Dec(s, a) == IF s = <<>> THEN a ELSE IF a > 99999999 THEN -1 ELSE Dec(Tail(s), a * 10 + (Head(s) - 48))
(* without the white space around it *)
Trim(s) == LET ns == {i \in 1..Len(s) : s[i] \notin {32, 9}}
           IN IF ns = {} THEN <<>> ELSE SubSeq(s, LeastOf(ns), Len(s) - LeastOf({Len(s) - i : i \in ns}))
StatusLine(s, st) ==   \* HTTP/1.x SP status SP reason
  /\ Len(s) >= 14 /\ SubSeq(s, 1, 7) = <<72, 84, 84, 80, 47, 49, 46>> /\ s[8] \in {48, 49}
  /\ s[9] = 32 /\ s[13] = 32 /\ Dig(s[10]) /\ Dig(s[11]) /\ Dig(s[12])
  /\ st = Dec(SubSeq(s, 10, 12), 0) /\ st \in 100..599
  /\ \E i \in 14..Len(s) : s[i] # 32
HeaderLine(l) == LET cs == {i \in 1..Len(l) : l[i] = 58}
                 IN cs # {} /\ LET c == LeastOf(cs) IN c > 1 /\ \A i \in 1..(c - 1) : l[i] \in TokenBytes
(* ls: the lines, st: the status, n: the number of body bytes that follow *)
WellFormedHead(ls, st, n) ==
  LET k == Len(ls) - 2
      Named(name) == {i \in 2..k : NameIs(ls[i], name)}
      lens == Named(NameLength)
      Val(i) == Trim(SubSeq(ls[i], Len(NameLength) + 2, Len(ls[i])))
  IN /\ k >= 1 /\ ls[k + 1] = <<>> /\ ls[k + 2] = <<>>
     /\ \A i \in 1..k : \A j \in 1..Len(ls[i]) : ls[i][j] \notin {0, 10, 13}
     /\ StatusLine(ls[1], st)
     /\ \A i \in 2..k : HeaderLine(ls[i])
     (* one length, which is the body's; no second way to delimit it *)
     /\ Cardinality(lens) <= 1 /\ (lens = {} => n = 0 /\ st \in {204, 304})
     /\ \A i \in lens : LET v == Val(i) IN v # <<>> /\ (\A j \in 1..Len(v) : Dig(v[j])) /\ Dec(v, 0) = n
     /\ Named(NameCoding) = {} /\ Cardinality(Named(NameConnection)) <= 1
=============================================================================
