------------------------------ MODULE DigestMC ------------------------------
(* The definitions against the published test vectors, and what makes the    *)
(* incremental interfaces meaningful: a digest fed in parts, with a buffer   *)
(* of one block, is the digest of the whole; the cipher's box stays a        *)
(* permutation and deciphering undoes enciphering, however the data is cut.  *)
EXTENDS Digest
CONSTANTS MaxFeed
ASSUME PadOK == \A n \in 0..300 : (n + 1 + PadLen(n) + 8) % 64 = 0 /\ PadLen(n) < 64
ASSUME MD5(<<>>) = <<212, 29, 140, 217, 143, 0, 178, 4, 233, 128, 9, 152, 236, 248, 66, 126>>
ASSUME MD5(<<97>>) = <<12, 193, 117, 185, 192, 241, 182, 168, 49, 195, 153, 226, 105, 119, 38, 97>>
ASSUME MD5(<<97, 98, 99>>) = <<144, 1, 80, 152, 60, 210, 79, 176, 214, 150, 63, 125, 40, 225, 127, 114>>
ASSUME MD5(<<109, 101, 115, 115, 97, 103, 101, 32, 100, 105, 103, 101, 115, 116>>) = <<249, 107, 105, 125, 124, 183, 147, 141, 82, 90, 47, 49, 170, 241, 97, 208>>
ASSUME MD5(<<97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122>>) = <<195, 252, 211, 215, 97, 146, 228, 0, 125, 251, 73, 108, 202, 103, 225, 59>>
ASSUME MD5(<<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48>>) = <<87, 237, 244, 162, 43, 227, 201, 85, 172, 73, 218, 46, 33, 7, 182, 122>>
ASSUME SHA1(<<97, 98, 99>>) = <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>
ASSUME SHA1(<<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101, 102, 103, 101, 102, 103, 104, 102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105, 106, 107, 108, 106, 107, 108, 109, 107, 108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112, 110, 111, 112, 113>>) = <<132, 152, 62, 68, 28, 59, 210, 110, 186, 174, 74, 161, 249, 81, 41, 229, 229, 70, 112, 241>>
ASSUME SHA1(<<>>) = <<218, 57, 163, 238, 94, 107, 75, 13, 50, 85, 191, 239, 149, 96, 24, 144, 175, 216, 7, 9>>
ASSUME CRC32(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<203, 244, 57, 38>>
ASSUME RC4(RC4Init(<<75, 101, 121>>), <<80, 108, 97, 105, 110, 116, 101, 120, 116>>).out = <<187, 243, 22, 232, 217, 64, 175, 10, 211>>
ASSUME RC4(RC4Init(<<83, 101, 99, 114, 101, 116>>), <<65, 116, 116, 97, 99, 107, 32, 97, 116, 32, 100, 97, 119, 110>>).out = <<69, 160, 31, 100, 95, 195, 91, 56, 53, 82, 84, 75, 155, 245>>
VARIABLES whole, st, buf, n, a, b, plain, enc
vars == <<whole, st, buf, n, a, b, plain, enc>>
Byte(i) == (7 * i + 3) % 256
Init == whole = <<>> /\ st = SHAInit /\ buf = <<>> /\ n = 0 /\ a = RC4Init(<<75, 101>>) /\ b = RC4Init(<<75, 101>>) /\ plain = <<>> /\ enc = <<>>
RECURSIVE Eat(_, _)
Eat(s, d) == IF Len(d) < 64 THEN <<s, d>> ELSE Eat(SHABlock(s, SubSeq(d, 1, 64)), SubSeq(d, 65, Len(d)))
(* a part of k bytes arrives: whole blocks are digested, the rest is kept; it is enciphered at once and deciphered later in other parts *)
Feed(k) == LET d == [i \in 1..k |-> Byte(Len(whole) + i)]  e == Eat(st, buf \o d)  c == RC4(a, d) IN
           whole' = whole \o d /\ st' = e[1] /\ buf' = e[2] /\ n' = n + 1 /\ a' = c /\ enc' = enc \o c.out /\ UNCHANGED <<b, plain>>
Decipher(k) == k <= Len(enc) /\ LET c == RC4(b, SubSeq(enc, 1, k)) IN b' = c /\ plain' = plain \o c.out /\ enc' = SubSeq(enc, k + 1, Len(enc)) /\ UNCHANGED <<whole, st, buf, n, a>>
Next == (n < MaxFeed /\ \E k \in {0, 1, 9, 55, 63, 64, 65, 130} : Feed(k)) \/ \E k \in {1, 64} : Decipher(k)
Spec == Init /\ [][Next]_vars
SameDigest == LET r == FoldLeft(SHABlock, st, Blocks(SubSeq(Padded(whole, TRUE), Len(whole) - Len(buf) + 1, Len(Padded(whole, TRUE))))) IN Concat([i \in 1..5 |-> BytesBE(r[i])]) = SHA1(whole)
Buffered == Len(buf) < 64 /\ Len(buf) = Len(whole) % 64
Permutation == {a.box[i] : i \in 0..255} = 0..255
Undone == IsPrefix(plain, whole)
=============================================================================
