--------------------------- MODULE PriorityQueue ---------------------------
(* A pop returns the earliest pushed among the queued values of best (least) *)
(* priority; popping an empty queue returns nothing. The queue is kept as    *)
(* the set of <<arrival, value>> pairs, so that the rule is stated without   *)
(* the sorted list the code keeps.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES q, clk
qvars == <<q, clk>>
Prio(c, v) == CASE c = "i" -> v [] c = "z" -> 0 [] c = "r" -> 100000 - (v \div 100) [] OTHER -> v \div 100
QInit == q = {} /\ clk = 0
Push(v) == q' = q \cup {<<clk, v>>} /\ clk' = clk + 1
Best(c) == CHOOSE x \in q : \A y \in q : Prio(c, x[2]) < Prio(c, y[2]) \/ (Prio(c, x[2]) = Prio(c, y[2]) /\ x[1] <= y[1])
Pop(c, r) == /\ UNCHANGED clk
             /\ IF q = {} THEN r = 0 /\ UNCHANGED q
                ELSE r = Best(c)[2] /\ q' = q \ {Best(c)}
=============================================================================
