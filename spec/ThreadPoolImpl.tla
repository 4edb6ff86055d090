--------------------------- MODULE ThreadPoolImpl ---------------------------
(* Design of the pool: one mutex, one condition, a linked list. Inserters    *)
(* append and signal under the mutex; workers test, wait (releasing the      *)
(* mutex, waking at a signal or for no reason) and pop under it, and run the *)
(* task outside. Refines ThreadPool; every task inserted is run (Live).      *)
(* h records who moved: the schedules replayed against the code.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NW, Script,   \* Script[i]: the tasks inserter i inserts, in order
          Spurious, Hist
W == 1..NW
I == 101..(100 + Len(Script))
VARIABLES owner, waiting, queue, pc, todo, task, ran, h
vars == <<owner, waiting, queue, pc, todo, task, ran>>
AllTasks == UNION {{Script[i][j] : j \in 1..Len(Script[i])} : i \in 1..Len(Script)}
Init == /\ owner = 0 /\ waiting = {} /\ queue = <<>> /\ ran = <<>> /\ h = <<>>
        /\ pc = [t \in W \cup I |-> IF t \in W THEN "lock" ELSE "idle"]
        /\ todo = [i \in I |-> Script[i - 100]] /\ task = [x \in W |-> 0]
Move(t) == h' = IF Hist THEN Append(h, t) ELSE h
Go(t, p) == pc' = [pc EXCEPT ![t] = p] /\ Move(t)
Lock(t, p) == owner = 0 /\ owner' = t /\ Go(t, p)
(* inserters *)
ICall(i) == pc[i] = "idle" /\ todo[i] /= <<>> /\ Go(i, "lock") /\ UNCHANGED <<owner, waiting, queue, todo, task, ran>>
ILock(i) == pc[i] = "lock" /\ Lock(i, "append") /\ UNCHANGED <<waiting, queue, todo, task, ran>>
IAppend(i) == pc[i] = "append" /\ queue' = Append(queue, Head(todo[i])) /\ Go(i, "signal") /\ UNCHANGED <<owner, waiting, todo, task, ran>>
ISignal(i) == /\ pc[i] = "signal" /\ Move(i) /\ UNCHANGED <<owner, queue, todo, task, ran>>
              /\ IF waiting = {} THEN pc' = [pc EXCEPT ![i] = "unlock"] /\ UNCHANGED waiting
                 ELSE \E x \in waiting : waiting' = waiting \ {x} /\ pc' = [pc EXCEPT ![i] = "unlock", ![x] = "relock"]
IUnlock(i) == pc[i] = "unlock" /\ owner' = 0 /\ Go(i, "ret") /\ UNCHANGED <<waiting, queue, todo, task, ran>>
IRet(i) == pc[i] = "ret" /\ todo' = [todo EXCEPT ![i] = Tail(@)] /\ Go(i, "idle") /\ UNCHANGED <<owner, waiting, queue, task, ran>>
(* workers *)
WLock(x) == pc[x] \in {"lock", "relock"} /\ Lock(x, "test") /\ UNCHANGED <<waiting, queue, todo, task, ran>>
WTest(x) == pc[x] = "test" /\ IF queue = <<>> THEN /\ owner' = 0 /\ waiting' = waiting \cup {x} /\ Go(x, "wait") /\ UNCHANGED <<queue, todo, task, ran>>
                                             ELSE Go(x, "pop") /\ UNCHANGED <<owner, waiting, queue, todo, task, ran>>
WWake(x) == Spurious /\ pc[x] = "wait" /\ waiting' = waiting \ {x} /\ Go(x, "relock") /\ UNCHANGED <<owner, queue, todo, task, ran>>
WPop(x) == pc[x] = "pop" /\ task' = [task EXCEPT ![x] = Head(queue)] /\ queue' = Tail(queue) /\ Go(x, "unlock") /\ UNCHANGED <<owner, waiting, todo, ran>>
WUnlock(x) == pc[x] = "unlock" /\ owner' = 0 /\ Go(x, "start") /\ UNCHANGED <<waiting, queue, todo, task, ran>>
WStart(x) == pc[x] = "start" /\ Go(x, "run") /\ ran' = Append(ran, task[x]) /\ UNCHANGED <<owner, waiting, queue, todo, task>>
WEnd(x) == pc[x] = "run" /\ task' = [task EXCEPT ![x] = 0] /\ Go(x, "lock") /\ UNCHANGED <<owner, waiting, queue, todo, ran>>
IStep(i) == ICall(i) \/ ILock(i) \/ IAppend(i) \/ ISignal(i) \/ IUnlock(i) \/ IRet(i)
WStep(x) == WLock(x) \/ WTest(x) \/ WPop(x) \/ WUnlock(x) \/ WStart(x) \/ WEnd(x)
Next == (\E i \in I : IStep(i)) \/ (\E x \in W : WStep(x) \/ WWake(x))
Spec == Init /\ [][Next]_<<vars, h>>
Fair == Spec /\ \A i \in I : WF_vars(IStep(i)) /\ SF_vars(ILock(i)) /\ \A x \in W : WF_vars(WStep(x)) /\ SF_vars(WLock(x))
(* ---- refinement: the queue changes at the append and at the pop ---- *)
aq == queue
apend == [i \in I |-> CASE pc[i] = "idle" -> <<>> [] pc[i] \in {"lock", "append"} -> <<Head(todo[i]), "call">> [] OTHER -> <<Head(todo[i]), "in">>]
aw == [x \in W |-> CASE task[x] = 0 -> <<>> [] pc[x] \in {"unlock", "start"} -> <<task[x], "taken">> [] OTHER -> <<task[x], "runs">>]
Abs == INSTANCE ThreadPool WITH Workers <- W, Threads <- I, Tasks <- AllTasks, q <- aq, pend <- apend, w <- aw
Refines == Abs!PSpec
(* ---- *)
Once == \A a, b \in 1..Len(ran) : ran[a] = ran[b] => a = b
Mutex == /\ Cardinality({t \in W \cup I : pc[t] \in {"append", "signal", "unlock", "test", "pop"}}) <= 1
         /\ \A t \in W \cup I : pc[t] \in {"append", "signal", "unlock", "test", "pop"} <=> owner = t
(* when nobody can move but by a wake-up for no reason, the pool is quiet    *)
Stuck == ~ENABLED (\E i \in I : IStep(i)) /\ ~ENABLED (\E x \in W : WStep(x))
NoneForgotten == Stuck => queue = <<>> /\ \A i \in I : todo[i] = <<>>
Live == \A t \in AllTasks : <>(\E k \in 1..Len(ran) : ran[k] = t)
View == vars
Emit == PrintT(<<"GEN", ToJson(h')>>)
=============================================================================
