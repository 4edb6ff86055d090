----------------------------- MODULE TextTrace -------------------------------
EXTENDS Text, Batch
Parsed == \/ Is("ini") /\ IniOk(E.t, E.err, E.r)
          \/ Is("pw") /\ PwOk(E.t, E.err, E.r)
          \/ Is("url") /\ (IF Has("u") THEN UrlText(E.u) = E.t /\ UrlOk(E.u, E.r, E.s) ELSE UrlAny(E.t, E.r, E.s))
          \/ Is("args") /\ ArgsOk(E.t, E.r)
          \/ Is("pct") /\ E.z /\ PctOk(E.t, E.enc, E.back, E.dec)
          \/ Is("b64") /\ B64Ok(E.t, E.enc, E.back, E.dec)
TInit == BInit
TNext == Step /\ Parsed
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
