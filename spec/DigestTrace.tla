---------------------------- MODULE DigestTrace ----------------------------
(* What is fed is remembered; a digest is that of all that was fed, and no    *)
(* function changes its input.                                               *)
EXTENDS Digest, Batch
VARIABLES alg, fed, box
tvars == <<alg, fed, box, tid, l>>
Digest(a, d) == CASE a = "md5" -> MD5(d) [] a = "sha1" -> SHA1(d) [] a = "crc" -> CRC32(d)
TInit == BInit /\ alg = "" /\ fed = <<>> /\ box = RC4Init(<<0>>)
One == E.same /\ E.r = Digest(E.a, E.d) /\ UNCHANGED <<alg, fed, box>>
New == alg' = E.a /\ fed' = <<>> /\ UNCHANGED box
Upd == E.same /\ fed' = fed \o E.d /\ UNCHANGED <<alg, box>>
Fin == alg # "" /\ E.r = Digest(alg, fed) /\ alg' = "" /\ UNCHANGED <<fed, box>>
SetKey == box' = RC4Init(E.k) /\ UNCHANGED <<alg, fed>>
Cipher == LET c == RC4(box, E.d) IN E.same /\ E.r = c.out /\ box' = c /\ UNCHANGED <<alg, fed>>
Crypt == E.same /\ E.r = RC4(RC4Init(E.k), E.d).out /\ UNCHANGED <<alg, fed, box>>
TNext == /\ Step
         /\ \/ Is("one") /\ One
            \/ Is("new") /\ New
            \/ Is("upd") /\ Upd
            \/ Is("fin") /\ Fin
            \/ Is("key") /\ SetKey
            \/ Is("cipher") /\ Cipher
            \/ Is("crypt") /\ Crypt
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
