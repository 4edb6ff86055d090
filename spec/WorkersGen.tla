----------------------------- MODULE WorkersGen -----------------------------
(* histories for replay: which process meets clients, and who is asked to    *)
(* terminate when; each ends with the main process being asked               *)
EXTENDS Workers, Sequences, TLC, Json
CONSTANT Longest
VARIABLE h
GInit == WInit /\ h = <<>>
Over == h /= <<>> /\ h[Len(h)] = <<"ask", 0>>
GNext == /\ ~Over
         /\ \/ \E k \in 1..Count : Fork(k) /\ UNCHANGED h
            \/ /\ n = Count
               /\ \/ Len(h) < Longest - 1 /\ \E p \in 0..Count : Serve(p) /\ h' = Append(h, <<"serve", p>>)
                  \/ \E p \in 0..Count : (p = 0 \/ Len(h) < Longest - 1) /\ Ask(p) /\ h' = Append(h, <<"ask", p>>)
Say == Over => PrintT(<<"GEN", ToJson(h)>>)
=============================================================================
