----------------------------- MODULE PathProps ------------------------------
(* Properties of the way paths are understood, over all short byte strings of *)
(* an alphabet that exercises escapes, separators and dots.                   *)
EXTENDS FileService, TLC
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b)
Spec == Init /\ [][Next]_s
HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE EncodeAll(_)
EncodeAll(x) == IF x = <<>> THEN <<>> ELSE <<37, HexUp(Head(x) \div 16), HexUp(Head(x) % 16)>> \o EncodeAll(Tail(x))
DecodeInverts == Decode(EncodeAll(s)) = s
DecodeShrinks == Len(Decode(s)) <= Len(s)
NoEscapeNoChange == ({37, 43} \cap Elems(s) = {}) => Decode(s) = s
(* resolving a path gives a place below the root, in normal form, and resolving it again changes nothing *)
Res(x) == Resolve(Segs(x))
Confined == LET a == Res(<<SL>> \o Decode(s)) IN
  /\ \A i \in 1..Len(a.st) : a.st[i] \notin {<<>>, <<DOT>>, <<DOT, DOT>>} /\ SL \notin Elems(a.st[i])
  /\ ~a.out => LET b == Res(Join(a.st)) IN b.st = a.st /\ ~b.out /\ b.via = {}
(* leaving the root is noticed exactly when some prefix has more .. than names *)
Depth(segs) == Cardinality({i \in 1..Len(segs) : segs[i] \notin {<<>>, <<DOT>>, <<DOT, DOT>>}}) - Cardinality({i \in 1..Len(segs) : segs[i] = <<DOT, DOT>>})
OutIffBelow == LET g == Segs(<<SL>> \o Decode(s)) IN Res(<<SL>> \o Decode(s)).out = \E i \in 0..Len(g) : Depth(SubSeq(g, 1, i)) < 0
(* ranges *)
RangeSound == \A n \in 0..3 : LET g == RangeOf(BytesUnit \o s, n) IN g.k = "ok" => g.a \in 0..(n - 1) /\ g.b \in g.a..(n - 1)
=============================================================================
