--------------------------- MODULE BencodingTrace ---------------------------
EXTENDS Bencoding, Batch
vars == <<tid, l>>
(* a document was decoded and what came out encoded again *)
Decoded == /\ Is("dec")
           /\ LET d == Decode(E.s) IN
                \/ E.err /\ (~d.ok \/ d.spaces)
                \/ ~E.err /\ d.ok /\ E.v = d.v /\ E.re = Encode(d.v)
(* a value was encoded and that decoded again. The order of a hash map's     *)
(* entries is free: then v and back are given with sorted keys              *)
Encoded == /\ Is("enc") /\ ~E.err
           /\ IF E.hash THEN Len(E.s) = Len(Encode(E.v)) /\ Decode(E.s).ok ELSE E.s = Encode(E.v)
           /\ E.back = E.v
TInit == BInit
TNext == Step /\ (Decoded \/ Encoded)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
