------------------------------ MODULE ListImpl ------------------------------
(* Design of the linked list: first/last pointers and doubly linked nodes,   *)
(* with the pointer updates of the code, refining the sequence of ListSpec.  *)
(* A removed node keeps no link; 0 is NULL.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Nodes
VARIABLES first, last, size, nxt, prv, seq
vars == <<first, last, size, nxt, prv, seq>>
Init == /\ first = 0 /\ last = 0 /\ size = 0 /\ seq = <<>>
        /\ nxt = [n \in Nodes |-> 0] /\ prv = [n \in Nodes |-> 0]
Out == {n \in Nodes : \A i \in 1..Len(seq) : seq[i] # n}
AppendNode(n) == /\ n \in Out /\ size' = size + 1 /\ last' = n /\ seq' = Append(seq, n)
                 /\ IF size = 0 THEN first' = n /\ UNCHANGED <<nxt, prv>>
                    ELSE UNCHANGED first /\ nxt' = [nxt EXCEPT ![last] = n] /\ prv' = [prv EXCEPT ![n] = last]
FrontNode(n) == /\ n \in Out /\ size' = size + 1 /\ first' = n /\ seq' = <<n>> \o seq
                /\ IF size = 0 THEN last' = n /\ UNCHANGED <<nxt, prv>>
                   ELSE UNCHANGED last /\ prv' = [prv EXCEPT ![first] = n] /\ nxt' = [nxt EXCEPT ![n] = first]
IndexNode(n, i) == /\ n \in Out /\ i < size
                   /\ LET x == seq[i + 1] p == prv[x] IN
                      /\ first' = IF i = 0 THEN n ELSE first
                      /\ nxt' = IF p = 0 THEN [nxt EXCEPT ![n] = x] ELSE [nxt EXCEPT ![n] = x, ![p] = n]
                      /\ prv' = [prv EXCEPT ![n] = p, ![x] = n]
                      /\ UNCHANGED last /\ size' = size + 1
                      /\ seq' = SubSeq(seq, 1, i) \o <<n>> \o SubSeq(seq, i + 1, Len(seq))
Remove(i) == /\ i \in 1..size
             /\ LET n == seq[i] p == prv[n] x == nxt[n]
                    nxt1 == IF p = 0 THEN nxt ELSE [nxt EXCEPT ![p] = x]
                    prv1 == IF x = 0 THEN prv ELSE [prv EXCEPT ![x] = p] IN
                /\ last' = IF x = 0 THEN p ELSE IF nxt1[x] = 0 THEN x ELSE last
                /\ first' = IF p = 0 THEN x ELSE first
                /\ nxt' = [nxt1 EXCEPT ![n] = 0] /\ prv' = [prv1 EXCEPT ![n] = 0]
                /\ size' = size - 1 /\ seq' = SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
Clear == /\ first' = 0 /\ last' = 0 /\ size' = 0 /\ seq' = <<>>
         /\ nxt' = [n \in Nodes |-> 0] /\ prv' = [n \in Nodes |-> 0]
Next == \/ \E n \in Nodes : AppendNode(n) \/ FrontNode(n) \/ \E i \in 0..Cardinality(Nodes) : IndexNode(n, i)
        \/ \E i \in 1..Cardinality(Nodes) : Remove(i)
        \/ Clear
Spec == Init /\ [][Next]_vars
Refines == /\ size = Len(seq)
           /\ first = IF seq = <<>> THEN 0 ELSE seq[1]
           /\ last = IF seq = <<>> THEN 0 ELSE seq[Len(seq)]
           /\ \A i \in 1..Len(seq) : /\ nxt[seq[i]] = IF i = Len(seq) THEN 0 ELSE seq[i + 1]
                                     /\ prv[seq[i]] = IF i = 1 THEN 0 ELSE seq[i - 1]
NoDangling == \A n \in Out : nxt[n] = 0 /\ prv[n] = 0
=============================================================================
