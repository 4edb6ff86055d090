------------------------------- MODULE Batch -------------------------------
(* Batch validation of recorded traces: one behaviour per trace, chosen by   *)
(* the initial state. A trace is a behaviour of the specification when some  *)
(* path consumes all its events; that is printed by Acc (a state constraint).*)
(* Pos prints every position reached instead, to locate a rejected event.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l
Ev == Traces[tid].ev
BInit == tid \in 1..Len(Traces) /\ l = 1
More == l <= Len(Ev)
E == Ev[l]
Has(f) == f \in DOMAIN E
Step == More /\ l' = l + 1 /\ tid' = tid
Is(o) == Has("o") /\ E.o = o
Acc == IF More THEN TRUE ELSE PrintT(<<"ACC", tid>>)
Pos == IF More THEN PrintT(<<"POS", tid, l - 1>>) ELSE PrintT(<<"ACC", tid>>)
=============================================================================
