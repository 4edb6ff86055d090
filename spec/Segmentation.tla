---------------------------- MODULE Segmentation ----------------------------
(* What a client gets is a function of what it sent: however the bytes of a   *)
(* stream were cut into segments and receives, the same bytes come back.      *)
EXTENDS Naturals, Sequences, Batch
VARIABLE answers   \* request stream -> the response stream it got
SegInit == answers = <<>>
Exchange(s, out) ==
  /\ s \in DOMAIN answers => answers[s] = out
  /\ answers' = [x \in (DOMAIN answers) \cup {s} |-> IF x = s THEN out ELSE answers[x]]
Act == Is("exchange") /\ Exchange(E.s, E.out)
TInit == BInit /\ SegInit
TNext == Step /\ Act
TSpec == TInit /\ [][TNext]_<<answers, tid, l>>
=============================================================================
