---------------------------- MODULE ConfigTrace ------------------------------
(* what a server started with given sources was seen to do                   *)
EXTENDS Config, Batch
VARIABLE eff
Elems(s) == {s[i] : i \in 1..Len(s)}
Act == \/ Is("start") /\ eff = <<>> /\ eff' = Effective(E.cli, E.file)
       \/ /\ eff # <<>> /\ eff' = eff
          /\ \/ Is("listen") /\ Len(E.s) = Cardinality(Listeners(eff)) /\ Elems(E.s) = Listeners(eff)
             \/ Is("answer") /\ E.by = Answerer(eff)
             \/ Is("index") /\ (Index(eff) = "any" \/ E.i = Index(eff))
             \/ Is("tpl") /\ (eff.handler \notin {"file", "dispatch"} \/ E.on = True(eff.use_template))
TInit == BInit /\ eff = <<>>
TNext == Step /\ Act
TSpec == TInit /\ [][TNext]_<<eff, tid, l>>
=============================================================================
