----------------------------- MODULE ProxyWalk ------------------------------
(* Long random histories of the environment (simulation).                     *)
EXTENDS ProxyMC, Json
CONSTANT WalkLen
WNext == IF ENABLED Impl THEN Impl /\ UNCHANGED hist
         ELSE /\ Len(hist) < WalkLen /\ Env
              /\ IF Len(hist') = WalkLen THEN PrintT(<<"GEN", ToJson(hist')>>) ELSE TRUE
=============================================================================
