------------------------------ MODULE Workers ------------------------------
(* The main process and its workers (system/service.c, create_workers and    *)
(* join_workers). Process 0 is the main one. As many workers as asked for,   *)
(* at most Most, are made before anything is served, by the main process     *)
(* alone; each serves clients like a server of its own. A worker that is     *)
(* asked to terminate, by the main process or by anyone else, ends like such *)
(* a server (status 0); the others do not notice. The main process, asked to *)
(* terminate, asks every worker to and awaits their ends before its own: no  *)
(* process is ever left behind.                                              *)
EXTENDS Naturals, FiniteSets
CONSTANTS Asked, \* the number of workers of the configuration
          Most
VARIABLES n,     \* workers made so far
          st,    \* per process: "none", "run", "stop" (asked, not gone), "gone"
          told,  \* the workers the main process has sent a termination signal
          kept,  \* the workers whose end the main process has seen
          hit    \* the processes somebody else asked to terminate
wvars == <<n, st, told, kept, hit>>
Count == IF Asked > Most THEN Most ELSE Asked
Term == {1, 2, 3, 15}      \* SIGHUP, SIGINT, SIGQUIT, SIGTERM
WInit == n = 0 /\ st = [p \in 0..Count |-> IF p = 0 THEN "run" ELSE "none"] /\ told = {} /\ kept = {} /\ hit = {}
Fork(k) == /\ n < Count /\ k = n + 1 /\ n' = k
           /\ st[0] \in {"run", "stop"} /\ st' = [st EXCEPT ![k] = st[0]] /\ UNCHANGED <<told, kept>>
           (* the request to terminate is inherited *)
           /\ hit' = IF st[0] = "stop" THEN hit \cup {k} ELSE hit
(* a process does its work: nothing is served before all the workers exist   *)
Serve(p) == n = Count /\ st[p] = "run" /\ UNCHANGED wvars
(* somebody else asks process p to terminate                                 *)
Ask(p) == st[p] = "run" /\ st' = [st EXCEPT ![p] = "stop"] /\ hit' = hit \cup {p} /\ UNCHANGED <<n, told, kept>>
(* the main process asks worker k: only once it is asked itself              *)
Tell(k, sig) == st[0] = "stop" /\ n = Count /\ k \in 1..Count /\ k \notin kept /\ sig \in Term /\ told' = told \cup {k} /\ UNCHANGED <<n, st, kept, hit>>
(* the worker takes the signal                                               *)
Hear(k) == k \in told /\ st[k] = "run" /\ st' = [st EXCEPT ![k] = "stop"] /\ UNCHANGED <<n, told, kept, hit>>
Leave(k) == k > 0 /\ st[k] = "stop" /\ st' = [st EXCEPT ![k] = "gone"] /\ UNCHANGED <<n, told, kept, hit>>
(* the main process begins to wait: with a worker that was not asked, it     *)
(* would do so forever                                                       *)
Await(k) == st[0] = "stop" /\ k \in told /\ UNCHANGED wvars
Reap(k, status) == k > 0 /\ st[k] = "gone" /\ k \notin kept /\ status = 0 /\ kept' = kept \cup {k} /\ UNCHANGED <<n, st, told, hit>>
End == st[0] = "stop" /\ n = Count /\ kept = 1..Count /\ st' = [st EXCEPT ![0] = "gone"] /\ UNCHANGED <<n, told, kept, hit>>
WNext == \/ \E k \in 1..Count : Fork(k) \/ Hear(k) \/ Leave(k) \/ Await(k) \/ Reap(k, 0) \/ \E sig \in Term : Tell(k, sig)
         \/ \E p \in 0..Count : Serve(p) \/ Ask(p)
         \/ End
(* ---------------- what follows ---------------- *)
NobodyLeft == st[0] = "gone" => \A k \in 1..Count : st[k] = "gone" /\ k \in kept
OnlyWhenAsked == /\ st[0] /= "run" => 0 \in hit
                 /\ \A k \in 1..Count : st[k] \in {"stop", "gone"} => k \in hit \/ k \in told
                 /\ told /= {} => 0 \in hit
SeenAfterEnd == \A k \in kept : st[k] = "gone"
WFair == /\ \A k \in 1..Count : WF_wvars(Hear(k)) /\ WF_wvars(Leave(k)) /\ WF_wvars(Reap(k, 0)) /\ WF_wvars(Fork(k))
                              /\ WF_wvars(k \notin told /\ Tell(k, 2))
         /\ WF_wvars(End)
WSpec == WInit /\ [][WNext]_wvars /\ WFair
AllEnd == (0 \in hit) ~> (\A p \in 0..Count : st[p] = "gone")
OneEnds == \A k \in 1..Count : (k \in hit) ~> (st[k] = "gone")
=============================================================================
