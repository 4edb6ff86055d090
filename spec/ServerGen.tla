------------------------------ MODULE ServerGen -----------------------------
(* One history of the clients for every transition of the design, from states *)
(* in which the server has nothing left to do.                                 *)
EXTENDS ServerMC, Json
GNext == IF ENABLED Serve THEN Serve
         ELSE Env /\ Door /\ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
