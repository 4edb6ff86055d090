----------------------------- MODULE ThreadPool -----------------------------
(* What a thread pool promises (viriatum_commons/thread/thread_pool.c): a    *)
(* queue of tasks filled by any thread and emptied, in order, by N workers.  *)
(* A thread calls, the task enters the queue before the call returns, an     *)
(* idle worker takes the oldest one, runs it, and is idle again.             *)
EXTENDS Naturals, Sequences
CONSTANTS Workers, Threads, Tasks
VARIABLES q,       \* tasks waiting, oldest first
          pend,    \* per thread: the insertion it is making, <<>> when none
          w        \* per worker: the task it took, <<>> when idle
pvars == <<q, pend, w>>
PInit == q = <<>> /\ pend = [t \in Threads |-> <<>>] /\ w = [x \in Workers |-> <<>>]
Call(th, t) == pend[th] = <<>> /\ pend' = [pend EXCEPT ![th] = <<t, "call">>] /\ UNCHANGED <<q, w>>
Enter(th) == pend[th] /= <<>> /\ pend[th][2] = "call" /\ q' = Append(q, pend[th][1]) /\ pend' = [pend EXCEPT ![th][2] = "in"] /\ UNCHANGED w
Return(th) == pend[th] /= <<>> /\ pend[th][2] = "in" /\ pend' = [pend EXCEPT ![th] = <<>>] /\ UNCHANGED <<q, w>>
Take(x) == w[x] = <<>> /\ q /= <<>> /\ w' = [w EXCEPT ![x] = <<Head(q), "taken">>] /\ q' = Tail(q) /\ UNCHANGED pend
Start(x, t) == w[x] = <<t, "taken">> /\ w' = [w EXCEPT ![x] = <<t, "runs">>] /\ UNCHANGED <<q, pend>>
End(x, t) == w[x] = <<t, "runs">> /\ w' = [w EXCEPT ![x] = <<>>] /\ UNCHANGED <<q, pend>>
(* nothing can go on by itself: nobody is calling, no worker is about to run *)
(* its task, and no task waits while a worker is idle                        *)
Quiet == /\ \A th \in Threads : pend[th] = <<>>
         /\ \A x \in Workers : w[x] = <<>> \/ w[x][2] = "runs"
         /\ q /= <<>> => \A x \in Workers : w[x] /= <<>>
PNext == \/ \E th \in Threads : (\E t \in Tasks : Call(th, t)) \/ Enter(th) \/ Return(th)
         \/ \E x \in Workers : Take(x) \/ \E t \in Tasks : Start(x, t) \/ End(x, t)
PSpec == PInit /\ [][PNext]_pvars
=============================================================================
