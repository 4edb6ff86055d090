----------------------------- MODULE BitsTrace ------------------------------
EXTENDS Bits, Batch
tvars == <<run, tail, rpos, tid, l>>
TInit == BInit /\ BitsInit
TNext == /\ Step
         /\ \/ Is("fill") /\ Fill(E.k, E.n, E.v)
            \/ Is("w") /\ PutBits(E.n, E.v)
            \/ Is("stored") /\ Stored(E.from, E.b, E.n)
            \/ Is("r") /\ GetBits(E.n, E.v)
            \/ Is("rfill") /\ GetRun(E.bad)
            \/ Is("back") /\ Back(E.n)
            \/ Is("rewind") /\ Rewind
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
