----------------------------- MODULE Quicksort -----------------------------
(* Design of the sort: the partition loop of the code, one step per          *)
(* comparison, with the recursion as a stack of ranges. Checked for every    *)
(* input of length up to MaxLen over Values: it terminates with an ordered   *)
(* permutation and never touches a position outside the range.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Values, MaxLen
VARIABLES inp, a, stack, lo, hi, left, right, pc
vars == <<inp, a, stack, lo, hi, left, right, pc>>
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Init == /\ inp \in UNION {[1..n -> Values] : n \in 0..MaxLen}
        /\ a = inp /\ stack = <<<<0, Len(inp)>>>> /\ lo = 0 /\ hi = 0 /\ left = 0 /\ right = 0 /\ pc = "call"
Call == /\ pc = "call" /\ stack # <<>>
        /\ lo' = Head(stack)[1] /\ hi' = Head(stack)[2]
        /\ stack' = Tail(stack) /\ UNCHANGED <<inp, a>>
        /\ IF hi' <= lo' + 1 THEN pc' = "call" /\ UNCHANGED <<left, right>>
           ELSE pc' = "part" /\ left' = lo' + 1 /\ right' = hi'
Part == /\ pc = "part" /\ left < right
        /\ IF a[left + 1] <= a[lo + 1] THEN left' = left + 1 /\ UNCHANGED <<right, a>>
           ELSE right' = right - 1 /\ a' = Swap(a, left + 1, right) /\ UNCHANGED left
        /\ UNCHANGED <<inp, stack, lo, hi, pc>>
Place == /\ pc = "part" /\ left >= right
         /\ a' = Swap(a, left, lo + 1)
         /\ stack' = <<<<lo, left - 1>>, <<right, hi>>>> \o stack
         /\ pc' = "call" /\ UNCHANGED <<inp, lo, hi, left, right>>
Done == pc = "call" /\ stack = <<>>
Next == Call \/ Part \/ Place
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
IsPermutation == Len(a) = Len(inp) /\ \A v \in Values : Count(a, v) = Count(inp, v)
SortedAtEnd == Done => \A i \in 1..(Len(a) - 1) : a[i] <= a[i + 1]
Terminates == <>Done
=============================================================================
