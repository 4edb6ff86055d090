---------------------------- MODULE StreamTrace -----------------------------
EXTENDS Stream, Batch
tvars == <<data, pos, open, mode, tid, l>>
TInit == BInit /\ FInit
TNext == /\ Step
         /\ \/ Is("open") /\ FOpen(E.m)
            \/ Is("close") /\ FClose
            \/ Is("read") /\ FRead(E.n, E.r)
            \/ Is("write") /\ FWrite(E.w) /\ E.n = Len(E.w)
            \/ Is("seek") /\ FSeek(E.p)
            \/ Is("flush") /\ FFlush
            \/ Is("size") /\ FSize(E.n)
            \/ Is("tell") /\ FTell(E.n)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
