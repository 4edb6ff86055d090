------------------------------ MODULE ListSpec ------------------------------
(* The linked list: a sequence of values, plus one node held by the caller   *)
(* (taken out without being deleted and put back later, the way the server   *)
(* moves a connection between its lists). 0 stands for "no value".           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES lst, held
lvars == <<lst, held>>
LInit == lst = <<>> /\ held = 0
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))   \* after the i first ones
At(i) == IF i >= 0 /\ i < Len(lst) THEN lst[i + 1] ELSE 0
FirstOf(v) == IF \E i \in 1..Len(lst) : lst[i] = v
              THEN CHOOSE i \in 1..Len(lst) : lst[i] = v /\ \A j \in 1..(i - 1) : lst[j] # v ELSE 0
Keep == UNCHANGED held
App(v) == lst' = Append(lst, v) /\ Keep
AppFront(v) == lst' = <<v>> \o lst /\ Keep
AppIndex(v, i) == lst' = (IF i <= Len(lst) THEN InsertAt(lst, i, v) ELSE lst) /\ Keep
RemValue(v) == lst' = (IF FirstOf(v) = 0 THEN lst ELSE RemoveAt(lst, FirstOf(v))) /\ Keep
RemIndex(i) == lst' = (IF i < Len(lst) THEN RemoveAt(lst, i + 1) ELSE lst) /\ Keep
GetAt(i, r) == r = At(i) /\ UNCHANGED lvars
Pop(r) == r = At(0) /\ lst' = (IF lst = <<>> THEN lst ELSE Tail(lst)) /\ Keep
PopTop(r) == r = At(Len(lst) - 1) /\ lst' = (IF lst = <<>> THEN lst ELSE SubSeq(lst, 1, Len(lst) - 1)) /\ Keep
Clear == lst' = <<>> /\ Keep
(* nodes: the previously held node, if any, is deleted when another is taken *)
Hold(r, rest) == /\ lst' = rest
                 /\ held' = IF r = 0 THEN held ELSE r
NPop(r) == r = At(0) /\ Hold(r, IF lst = <<>> THEN lst ELSE Tail(lst))
NPopTop(r) == r = At(Len(lst) - 1) /\ Hold(r, IF lst = <<>> THEN lst ELSE SubSeq(lst, 1, Len(lst) - 1))
NRem(i, r) == r = At(i) /\ Hold(r, IF i < Len(lst) THEN RemoveAt(lst, i + 1) ELSE lst)
NPut(r) == r = held /\ lst' = (IF held = 0 THEN lst ELSE Append(lst, held)) /\ held' = 0
NPutFront(r) == r = held /\ lst' = (IF held = 0 THEN lst ELSE <<held>> \o lst) /\ held' = 0
NPutIndex(i, r) == r = held /\ i <= Len(lst) /\ lst' = (IF held = 0 THEN lst ELSE InsertAt(lst, i, held)) /\ held' = 0
(* sorting: any ordered permutation; Key gives what the comparison looks at  *)
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Permutation(s, t) == Len(s) = Len(t) /\ \A v \in {s[i] : i \in 1..Len(s)} : Count(s, v) = Count(t, v)
Key(c, v) == CASE c = "i" -> v [] c = "z" -> 0 [] c = "r" -> 100000 - (v \div 100) [] OTHER -> v \div 100
Ordered(c, s) == \A i \in 1..(Len(s) - 1) : Key(c, s[i]) <= Key(c, s[i + 1])
SortTo(c, t) == Permutation(lst, t) /\ Ordered(c, t) /\ lst' = t /\ Keep
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
