------------------------------- MODULE Digest -------------------------------
(* MD5 (RFC 1321), SHA-1 (FIPS 180), CRC-32 (ISO 3309) and RC4, on bytes.     *)
(* Words of 32 bits are pairs of halves, since integers of TLC have 32 bits   *)
(* and a sign.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, SequencesExt
W(h, l) == <<h, l>>
Z == <<0, 0>>
WAdd(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div 65536) % 65536, l % 65536>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
P2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Rol(a, n) == IF n = 0 THEN a ELSE IF n = 16 THEN <<a[2], a[1]>>
             ELSE LET x == IF n > 16 THEN <<a[2], a[1]>> ELSE a
                      m == P2[IF n > 16 THEN n - 16 ELSE n]  k == P2[16 - (IF n > 16 THEN n - 16 ELSE n)] IN
                  <<((x[1] * m) % 65536) + (x[2] \div k), ((x[2] * m) % 65536) + (x[1] \div k)>>
Shr8(a) == <<a[1] \div 256, a[2] \div 256 + (a[1] % 256) * 256>>
Zeros(n) == [i \in 1..n |-> 0]
(* padding of both digests; lengths below 2^28 bytes *)
PadLen(n) == (119 - (n % 64)) % 64
LE(b, i) == <<b[i + 3] * 256 + b[i + 2], b[i + 1] * 256 + b[i]>>
BE(b, i) == <<b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3]>>
Bits(n) == <<n \div 8192, (n % 8192) * 8>>
BytesLE(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
BytesBE(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
Padded(d, big) == d \o <<128>> \o Zeros(PadLen(Len(d))) \o (IF big THEN BytesBE(Z) \o BytesBE(Bits(Len(d))) ELSE BytesLE(Bits(Len(d))) \o BytesLE(Z))
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
(* ---- MD5 ---- *)
MD5K == <<<<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>, <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>, <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>, <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>, <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>, <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>, <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>, <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>
MD5S == <<7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21>>
MD5X(i) == CASE i < 16 -> i [] i < 32 -> (5 * i + 1) % 16 [] i < 48 -> (3 * i + 5) % 16 [] OTHER -> (7 * i) % 16
MD5F(i, b, c, d) == CASE i < 16 -> WOr(WAnd(b, c), WAnd(WNot(b), d)) [] i < 32 -> WOr(WAnd(d, b), WAnd(WNot(d), c))
                      [] i < 48 -> WXor(b, WXor(c, d)) [] OTHER -> WXor(c, WOr(b, WNot(d)))
MD5Step(m, s, i) == LET t == WAdd(WAdd(s[1], MD5F(i, s[2], s[3], s[4])), WAdd(MD5K[i + 1], LE(m, 4 * MD5X(i) + 1))) IN
                    <<s[4], WAdd(s[2], Rol(t, MD5S[i + 1])), s[2], s[3]>>
MD5Block(s, m) == LET r == FoldLeft(LAMBDA a, i : MD5Step(m, a, i), s, [i \in 1..64 |-> i - 1]) IN [i \in 1..4 |-> WAdd(s[i], r[i])]
MD5Init == <<W(26437, 8961), W(61389, 43913), W(39098, 56574), W(4146, 21622)>>
Blocks(p) == [i \in 1..Len(p) \div 64 |-> SubSeq(p, 64 * i - 63, 64 * i)]
MD5(d) == LET r == FoldLeft(MD5Block, MD5Init, Blocks(Padded(d, FALSE))) IN Concat([i \in 1..4 |-> BytesLE(r[i])])
(* ---- SHA-1 ---- *)
SHAInit == MD5Init \o <<W(50130, 57840)>>
SHASched(m) == FoldLeft(LAMBDA w, t : Append(w, Rol(WXor(WXor(w[t - 3], w[t - 8]), WXor(w[t - 14], w[t - 16])), 1)), [i \in 1..16 |-> BE(m, 4 * i - 3)], [i \in 1..64 |-> i + 16])
SHAF(t, b, c, d) == CASE t < 20 -> WOr(WAnd(b, c), WAnd(WNot(b), d)) [] t < 40 -> WXor(b, WXor(c, d))
                      [] t < 60 -> WOr(WOr(WAnd(b, c), WAnd(b, d)), WAnd(c, d)) [] OTHER -> WXor(b, WXor(c, d))
SHAK(t) == CASE t < 20 -> W(23170, 31129) [] t < 40 -> W(28377, 60321) [] t < 60 -> W(36635, 48348) [] OTHER -> W(51810, 49622)
SHAStep(w, s, t) == LET x == WAdd(WAdd(Rol(s[1], 5), SHAF(t, s[2], s[3], s[4])), WAdd(s[5], WAdd(w[t + 1], SHAK(t)))) IN <<x, s[1], Rol(s[2], 30), s[3], s[4]>>
SHABlock(s, m) == LET w == SHASched(m)  r == FoldLeft(LAMBDA a, t : SHAStep(w, a, t), s, [i \in 1..80 |-> i - 1]) IN [i \in 1..5 |-> WAdd(s[i], r[i])]
SHA1(d) == LET r == FoldLeft(SHABlock, SHAInit, Blocks(Padded(d, TRUE))) IN Concat([i \in 1..5 |-> BytesBE(r[i])])
(* ---- CRC-32, bit by bit ---- *)
CRCBit(c) == LET h == <<c[1] \div 2, c[2] \div 2 + (c[1] % 2) * 32768>> IN IF c[2] % 2 = 1 THEN WXor(h, W(60856, 33568)) ELSE h
CRCByte(c, b) == LET x == <<c[1], c[2] ^^ b>> IN CRCBit(CRCBit(CRCBit(CRCBit(CRCBit(CRCBit(CRCBit(CRCBit(x))))))))
CRC32(d) == BytesBE(WNot(FoldLeft(CRCByte, W(65535, 65535), d)))
(* ---- RC4: a box, a permutation of the bytes, and two indexes ---- *)
Box0 == [i \in 0..255 |-> i]
Key(k) == FoldLeft(LAMBDA a, i : LET j == (a.j + a.box[i] + k[(i % Len(k)) + 1]) % 256 IN [a EXCEPT !.j = j, !.box[i] = a.box[j], !.box[j] = a.box[i]],
                   [box |-> Box0, j |-> 0], [i \in 1..256 |-> i - 1]).box
RC4Init(k) == [box |-> Key(k), x |-> 0, y |-> 0, out |-> <<>>]
RC4Byte(s, b) == LET x == (s.x + 1) % 256  y == (s.y + s.box[x]) % 256
                     bx == [s.box EXCEPT ![x] = s.box[y], ![y] = s.box[x]] IN
                 [box |-> bx, x |-> x, y |-> y, out |-> Append(s.out, b ^^ bx[(bx[x] + bx[y]) % 256])]
RC4(s, d) == FoldLeft(RC4Byte, [s EXCEPT !.out = <<>>], d)
=============================================================================
