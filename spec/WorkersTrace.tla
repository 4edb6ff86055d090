---------------------------- MODULE WorkersTrace ----------------------------
(* recorded runs: what happened to all the processes, in order               *)
EXTENDS Workers, Batch
Act == \/ Is("fork") /\ Fork(E.k)
       \/ Is("serve") /\ Serve(E.p)
       \/ Is("ask") /\ Ask(E.p)
       \/ Is("kill") /\ Tell(E.k, E.x)
       \/ Is("hear") /\ Hear(E.p)
       \/ Is("leave") /\ Leave(E.p)
       \/ Is("wait") /\ Await(E.k)
       \/ Is("reaped") /\ Reap(E.k, E.x)
       \/ Is("late") /\ UNCHANGED wvars        \* a signal for a process that is no more
       \/ Is("end") /\ E.x = 0 /\ E.who = n /\ End
TInit == BInit /\ WInit
TNext == Step /\ Act
TSpec == TInit /\ [][TNext]_<<wvars, tid, l>>
=============================================================================
