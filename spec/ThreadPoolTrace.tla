-------------------------- MODULE ThreadPoolTrace ---------------------------
(* recorded runs of the real pool; when a task enters the queue and when a   *)
(* worker takes it is not observed                                           *)
EXTENDS Batch
VARIABLES q, pend, w
P == INSTANCE ThreadPool WITH Workers <- (1..64), Threads <- (0..150), Tasks <- (1..24)
vars == <<tid, l, q, pend, w>>
TInit == BInit /\ q = <<>> /\ pend = [t \in {e.th : e \in {x \in {Ev[i] : i \in 1..Len(Ev)} : "th" \in DOMAIN x}} |-> <<>>] /\ w = [x \in 1..Traces[tid].n |-> <<>>]
Hidden == /\ More /\ UNCHANGED <<tid, l>>
          /\ \/ \E th \in DOMAIN pend : P!Enter(th)
             \/ \E x \in DOMAIN w : P!Take(x)
Calls == Is("call") /\ P!Call(E.th, E.t)
Returns == Is("ret") /\ P!Return(E.th)
Starts == Is("start") /\ E.th \in DOMAIN w /\ P!Start(E.th, E.t)
Ends == Is("end") /\ E.th \in DOMAIN w /\ P!End(E.th, E.t)
Quiets == /\ Is("quiet") /\ UNCHANGED <<q, pend, w>>
          /\ \A th \in DOMAIN pend : pend[th] = <<>>
          /\ \A x \in DOMAIN w : w[x] = <<>> \/ w[x][2] = "runs"
          /\ q /= <<>> => \A x \in DOMAIN w : w[x] /= <<>>
TNext == Hidden \/ (Step /\ (Calls \/ Returns \/ Starts \/ Ends \/ Quiets))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
