------------------------------- MODULE StrBuf -------------------------------
(* string and linked buffers: the concatenation of the appended pieces *)
EXTENDS Naturals, Sequences
VARIABLE txt
SInit == txt = <<>>
SAppend(d) == txt' = txt \o d
SJoin(r) == r = txt /\ UNCHANGED txt
=============================================================================
