-------------------------- MODULE HttpParserTrace ---------------------------
EXTENDS HttpParser, Batch
VARIABLES ps
tvars == <<ps, tid, l>>
TInit == BInit /\ ps = Start
(* a call: the events and the position where it stops are those of the spec *)
Call == LET f == Feed(ps, E.d) IN
        /\ E.cb = f.s.ev
        /\ E.ret = IF f.s.st = "error" THEN -1 ELSE f.n
        /\ ps' = IF f.s.st = "done" THEN Start ELSE f.s
TNext == Step /\ ((Is("new") /\ ps' = Start) \/ (Is("call") /\ Call))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
