------------------------------ MODULE ProxyGen ------------------------------
(* One history of the environment for every transition of the design, from   *)
(* states in which the proxy has nothing left to do.                          *)
EXTENDS ProxyMC, Json
GNext == IF ENABLED Impl THEN Impl /\ UNCHANGED hist
         ELSE Env /\ PrintT(<<"GEN", ToJson(hist')>>)
GSpec == Init /\ [][GNext]_vars
=============================================================================
