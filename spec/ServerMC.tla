------------------------------ MODULE ServerMC ------------------------------
(* The way the server works: an event loop that accepts, reads and takes     *)
(* requests one at a time per connection, a queue of pieces towards each      *)
(* client, closing after the last piece, and what is done when it is asked to *)
(* terminate. Every effect is an action of Server: one that Server does not   *)
(* allow makes the design bad. When nothing is left to do, all is settled.    *)
EXTENDS Server
CONSTANTS NC, MaxReq, Kinds, Leave, Win, Term, Mods, Rec, Sec,
          Cap     \* connections the system lets it have at once (0: any number)
VARIABLES cl, bad, hist,
          door    \* what it knows of those who wait: "rung" when there may be some,
                  \* "full" when there was no room for them, "idle" otherwise
vars == <<svars, cl, bad, hist, door>>
MCSite(i) == [handler |-> "default", listeners |-> 1, secure |-> Sec]
MCBase(i) == <<>>
Clients == 0..(NC - 1)
Req(k) == [bad |-> k = "bad", ka |-> k = "keep", m |-> "GET"]
Init == /\ sid = 1 /\ mut = <<>> /\ conns = <<>> /\ vers = <<>> /\ up = "up" /\ down = {} /\ idle = <<>> /\ cap = Cap
        /\ cl = <<>> /\ bad = FALSE /\ hist = <<>> /\ door = IF Cap = 0 THEN "rung" ELSE "idle"
H(x) == hist' = IF Rec THEN Append(hist, x) ELSE hist
Emit(A) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED svars
-----------------------------------------------------------------------------
(* the clients, and who asks the server to terminate *)
(* part: the request begun; rx: whole ones not taken; cr: pieces that are      *)
(* still accepted while not reading                                            *)
Fresh == [n |-> 0, part |-> "", rx |-> <<>>, lock |-> FALSE, cur |-> "", out |-> <<>>, mid |-> FALSE, cr |-> 0]
Up == up = "up"
EConn(c) == /\ c \notin DOMAIN conns /\ (c > 0 => c - 1 \in DOMAIN conns)
            /\ Connect(c) /\ cl' = Put(cl, c, Fresh) /\ UNCHANGED bad /\ H(<<"conn", c>>)
Sends(c) == Open(c) /\ ~conns[c].fin /\ ~conns[c].rst
EBegin(c, k) == /\ Sends(c) /\ cl[c].part = "" /\ cl[c].n < MaxReq
                /\ cl' = [cl EXCEPT ![c].n = @ + 1, ![c].part = k] /\ UNCHANGED <<svars, bad>> /\ H(<<"begin", c, k>>)
EEnd(c) == /\ Sends(c) /\ cl[c].part # "" /\ Deliver(c, Req(cl[c].part))
           /\ cl' = [cl EXCEPT ![c].part = "", ![c].rx = Append(@, cl[c].part)] /\ UNCHANGED bad /\ H(<<"end", c>>)
EFin(c) == Leave /\ Sends(c) /\ Fin(c) /\ UNCHANGED <<cl, bad>> /\ H(<<"fin", c>>)
ERst(c) == Leave /\ Open(c) /\ ~conns[c].rst /\ Rst(c) /\ UNCHANGED <<cl, bad>> /\ H(<<"rst", c>>)
EWin(c, w) == /\ Win /\ Sends(c) /\ (w = "on") = conns[c].blk /\ Window(c, w = "on")
              /\ cl' = [cl EXCEPT ![c].cr = IF w = "some" THEN 1 ELSE 0] /\ UNCHANGED bad /\ H(<<"win", c, w>>)
ETerm == Term /\ Up /\ Terminate /\ UNCHANGED <<cl, bad>> /\ H(<<"term">>)
Env == Up /\ \/ \E c \in Clients : EConn(c) \/ (\E k \in Kinds : EBegin(c, k)) \/ EEnd(c) \/ EFin(c) \/ ERst(c)
                                   \/ (\E w \in {"on", "some", "off"} : EWin(c, w))
             \/ ETerm
-----------------------------------------------------------------------------
(* the server *)
Alive(c) == Open(c) /\ conns[c].acc
IAccept(c) == up # "ended" /\ door = "rung" /\ Room /\ Open(c) /\ ~conns[c].acc /\ Emit(Accept(c)) /\ UNCHANGED cl
(* a request is taken when the one before it has been answered; pieces of the answer *)
Pieces(k) == IF k = "bad" THEN <<"e", "close">> ELSE <<"h", "e", IF k = "keep" THEN "rel" ELSE "close">>
(* encrypted: nothing is taken before the keys are agreed on, which takes the    *)
(* client to read                                                             *)
IShake(c) == /\ Sec /\ up # "ended" /\ Alive(c) /\ ~conns[c].hs /\ ~conns[c].rst /\ ~conns[c].fin /\ ~conns[c].blk
             /\ Emit(Handshake(c, TRUE)) /\ UNCHANGED cl
ITake(c) == /\ up # "ended" /\ Alive(c) /\ MaySee(c) /\ ~cl[c].lock /\ cl[c].rx # <<>>
            /\ cl' = [cl EXCEPT ![c].rx = Tail(@), ![c].lock = TRUE, ![c].cur = Head(cl[c].rx), ![c].out = Pieces(Head(cl[c].rx))]
            /\ UNCHANGED <<svars, bad>>
Msg(k) == IF k = "bad" THEN [st |-> 400, len |-> 1, bl |-> 1, err |-> <<400>>, ka |-> FALSE, hello |-> FALSE]
          ELSE [st |-> 200, len |-> 1, bl |-> 1, err |-> <<>>, ka |-> k = "keep", hello |-> TRUE]
IClosed(c) == Emit(Close(c, cl[c].mid)) /\ cl' = [cl EXCEPT ![c] = [Fresh EXCEPT !.n = cl[c].n]]
IFlush(c) ==
  /\ up # "ended" /\ Alive(c) /\ ~conns[c].rst /\ cl[c].out # <<>>
  /\ LET p == Head(cl[c].out)
         t == [cl EXCEPT ![c].out = Tail(@), ![c].cr = IF @ > 0 THEN @ - 1 ELSE 0] IN
     /\ p \in {"h", "e"} => ~conns[c].blk \/ cl[c].cr > 0
     /\ CASE p = "h" -> UNCHANGED <<svars, bad>> /\ cl' = [t EXCEPT ![c].mid = TRUE]
          [] p = "e" -> Emit(Respond(c, Msg(cl[c].cur))) /\ cl' = [t EXCEPT ![c].mid = FALSE]
          [] p = "rel" -> UNCHANGED <<svars, bad>> /\ cl' = [t EXCEPT ![c].lock = FALSE]
          [] p = "close" -> IClosed(c)
ILeave(c) == up # "ended" /\ Alive(c) /\ (conns[c].fin \/ conns[c].rst) /\ IClosed(c)
(* asked to terminate: the round of events goes on, then all is taken down *)
IRound == up = "ending" /\ Emit(Round) /\ UNCHANGED cl
IStop(m) == up = "ended" /\ m \notin down /\ Emit(Stop(m)) /\ UNCHANGED cl
ITakeDown(c) == up = "ended" /\ Alive(c) /\ IClosed(c)
Serving == \E c \in DOMAIN conns : IAccept(c) \/ IShake(c) \/ ITake(c) \/ IFlush(c) \/ ILeave(c)
Ending == IRound \/ (\E m \in Mods : IStop(m)) \/ (\E c \in DOMAIN conns : ITakeDown(c))
Impl == Serving \/ Ending
(* it is told of those who wait once, when they come: with no room for them it *)
(* remembers, and looks again after a connection of its own has been closed    *)
Waits == \E c \in DOMAIN conns : Open(c) /\ ~conns[c].acc
Door == door' = IF Cap = 0 THEN door
                ELSE IF DOMAIN conns' # DOMAIN conns THEN "rung"
                ELSE IF door = "full" /\ (\E c \in DOMAIN conns : Alive(c) /\ ~conns'[c].open) THEN "rung" ELSE door
Look1 == /\ Cap > 0 /\ up # "ended" /\ door = "rung" /\ (~Room \/ ~Waits)
         /\ door' = (IF Room THEN "idle" ELSE "full") /\ UNCHANGED <<svars, cl, bad, hist>>
Act == Impl /\ UNCHANGED hist /\ Door
Serve == Act \/ Look1
Next == ~bad /\ ((Env /\ Door) \/ Serve)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(~bad /\ Serve)
-----------------------------------------------------------------------------
Allowed == ~bad
Quiet == ~ENABLED Serve
NothingLeft == Quiet => IF Up THEN \A c \in DOMAIN conns : Settled(conns[c], cl[c].mid)
                        ELSE ENABLED Exit(0, 0, Mods)
(* every request is answered or its connection closed, but for want of reading *)
Due(c) == Up /\ Open(c) /\ (Cap = 0 \/ conns[c].acc) /\ ~conns[c].blk /\ conns[c].q # <<>>
Answered == \A c \in Clients : (c \in DOMAIN conns /\ Due(c)) ~> (~Up \/ ~Open(c) \/ conns[c].blk \/ conns[c].q = <<>>)
Stopped == (up = "ending") ~> (up = "ended" /\ down = Mods /\ \A c \in DOMAIN conns : ~Alive(c))
(* whoever waits is let in when there is room *)
Admitted == \A c \in Clients : (c \in DOMAIN conns /\ Open(c) /\ ~conns[c].acc /\ Room) ~> (~Up \/ ~Open(c) \/ conns[c].acc \/ ~Room)
View == <<svars, cl, bad, door>>
=============================================================================
