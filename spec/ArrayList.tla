----------------------------- MODULE ArrayList ------------------------------
(* the array list: at each index the element last stored there *)
EXTENDS Naturals, Sequences, TLC
VARIABLE arr
AInit == arr = <<>>
ASet(x, v) == arr' = (x :> v) @@ arr
AGet(x, v) == UNCHANGED arr /\ (x \in DOMAIN arr => v = arr[x])
=============================================================================
