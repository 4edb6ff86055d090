----------------------------- MODULE ServerWalk -----------------------------
(* Long random histories of the clients (simulation).                          *)
EXTENDS ServerMC, Json
CONSTANT WalkLen
WNext == IF ENABLED Serve THEN Serve
         ELSE /\ Len(hist) < WalkLen /\ Env /\ Door
              /\ IF Len(hist') = WalkLen \/ up' # "up" THEN PrintT(<<"GEN", ToJson(hist')>>) ELSE TRUE
=============================================================================
