------------------------------ MODULE PoolImpl ------------------------------
(* Design of the pool: chunks of CS items with a bitmap and the index of the *)
(* lowest free item, an index of the lowest chunk with a free item, growth   *)
(* by doubling and shrinking when the allocated chunks fall to a third of    *)
(* the maximum. Refines Pool. (hash map from blocks to items left out.)      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS CS, Initial, MaxChunks
VARIABLES ch,      \* sequence of chunks [id, bits, full, free]
          pfree, calloc, cmax, live, fresh, bad
vars == <<ch, pfree, calloc, cmax, live, fresh, bad>>
NewChunk(i) == [id |-> i, bits |-> [k \in 0..(CS - 1) |-> FALSE], full |-> FALSE, free |-> 0]
Used(c) == Cardinality({k \in 0..(CS - 1) : c.bits[k]})
Init == ch = <<>> /\ pfree = 0 /\ calloc = 0 /\ cmax = Initial /\ live = {} /\ fresh = 1 /\ bad = FALSE
Max(a, b) == IF a > b THEN a ELSE b
Alloc ==
  LET n == Len(ch)
      inc == IF n > 0 THEN n ELSE 1
      chs == IF pfree = n THEN ch \o [i \in 1..inc |-> NewChunk(fresh + i - 1)] ELSE ch
      c == chs[pfree + 1]
      it == c.free
      nxt == {k \in (it + 1)..(CS - 1) : ~c.bits[k]}
      c1 == [c EXCEPT !.bits[it] = TRUE,
                      !.free = IF nxt = {} THEN it ELSE CHOOSE k \in nxt : \A j \in nxt : k <= j,
                      !.full = (nxt = {})]
      ch1 == [chs EXCEPT ![pfree + 1] = c1]
      later == {i \in (pfree + 1)..(Len(chs) - 1) : ~ch1[i + 1].full}
  IN /\ Len(chs) <= MaxChunks
     /\ ch' = ch1
     /\ fresh' = fresh + Len(chs) - n
     /\ cmax' = IF pfree = n THEN Max(cmax, n + inc) ELSE cmax
     /\ calloc' = IF Used(c) = 0 THEN calloc + 1 ELSE calloc
     /\ pfree' = IF ~c1.full THEN pfree ELSE IF later = {} THEN Len(chs) ELSE CHOOSE i \in later : \A j \in later : i <= j
     /\ bad' = (<<c.id, it>> \in live)
     /\ live' = live \cup {<<c.id, it>>}
(* shrinking keeps the chunks in use, in order, then fills up with empty ones *)
Sel(s, P(_)) == SelectSeq(s, P)
Shrunk(s, m) == LET A(c) == Used(c) > 0 Z(c) == Used(c) = 0
                    u == Sel(s, A) e == Sel(s, Z) k == IF Len(s) < m THEN Len(s) ELSE m
                IN u \o SubSeq(e, 1, k - Len(u))
FirstFree(s) == LET u == {i \in 1..Len(s) : Used(s[i]) > 0 /\ ~s[i].full}
                    n == Cardinality({i \in 1..Len(s) : Used(s[i]) > 0})
                IN IF u = {} THEN n ELSE (CHOOSE i \in u : \A j \in u : i <= j) - 1
Free(b) ==
  LET p == CHOOSE i \in 1..Len(ch) : ch[i].id = b[1]
      c == ch[p]
      c1 == [c EXCEPT !.bits[b[2]] = FALSE, !.full = FALSE,
                      !.free = IF c.full \/ b[2] < c.free THEN b[2] ELSE c.free]
      ch1 == [ch EXCEPT ![p] = c1]
      ca == IF Used(c1) = 0 THEN calloc - 1 ELSE calloc
      shrink == Used(c1) = 0 /\ ca = cmax \div 3 /\ cmax \div 2 # cmax
      ch2 == IF shrink THEN Shrunk(ch1, cmax \div 2) ELSE ch1
  IN /\ live' = live \ {b} /\ bad' = FALSE /\ UNCHANGED fresh
     /\ ch' = ch2 /\ calloc' = ca
     /\ cmax' = IF shrink THEN cmax \div 2 ELSE cmax
     /\ pfree' = IF shrink THEN FirstFree(ch2) ELSE IF p - 1 < pfree THEN p - 1 ELSE pfree
Next == Alloc \/ \E b \in live : Free(b)
Spec == Init /\ [][Next]_vars
NoDouble == ~bad
Consistent == /\ \A b \in live : \E i \in 1..Len(ch) : ch[i].id = b[1] /\ ch[i].bits[b[2]]
              /\ \A i \in 1..Len(ch) : ch[i].full = (Used(ch[i]) = CS)
              /\ calloc = Cardinality({i \in 1..Len(ch) : Used(ch[i]) > 0})
              /\ (pfree < Len(ch) => ~ch[pfree + 1].full /\ ~ch[pfree + 1].bits[ch[pfree + 1].free])
Bound == fresh <= 9
View == <<[i \in 1..Len(ch) |-> <<ch[i].bits, ch[i].full, ch[i].free>>], pfree, calloc, cmax, bad>>
=============================================================================
