---------------------------- MODULE StrBufTrace -----------------------------
EXTENDS StrBuf, Batch
tvars == <<txt, tid, l>>
TInit == BInit /\ SInit
(* a joined string buffer is terminated right after its text, so that its    *)
(* length as a string is the position of the first zero byte in it          *)
FirstZero(s) == IF \E i \in 1..Len(s) : s[i] = 0 THEN (CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..(i - 1) : s[j] # 0) - 1 ELSE Len(s)
TNext == /\ Step
         /\ \/ Has("d") /\ SAppend(E.d)
            \/ Is("join") /\ SJoin(E.r) /\ (Has("z") => E.z = FirstZero(E.r))
         /\ E.n = Len(txt')
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
