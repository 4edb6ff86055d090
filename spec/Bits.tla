-------------------------------- MODULE Bits --------------------------------
(* bit streams: numbers of given widths written one after the other, most    *)
(* significant bit first, padded with zeros to a whole byte when closed, and *)
(* read from any point. A long run of equal numbers at the start is kept as  *)
(* <<count, width, value>> so that traces can pass the buffer's size.        *)
EXTENDS Naturals, Sequences
VARIABLES run, tail, rpos
bvars == <<run, tail, rpos>>
BitOf(v, w, i) == (v \div (2 ^ (w - 1 - i))) % 2       \* bit i (0: first) of v in width w
BitsOf(v, w) == [i \in 1..w |-> BitOf(v, w, i - 1)]
RunBits == run[1] * run[2]
Total == RunBits + Len(tail)
BitAt(i) == IF i < RunBits THEN BitOf(run[3], run[2], i % run[2])
            ELSE IF i < Total THEN tail[i - RunBits + 1] ELSE 0
RECURSIVE ValueAt(_, _)
ValueAt(i, w) == IF w = 0 THEN 0 ELSE 2 * ValueAt(i, w - 1) + BitAt(i + w - 1)
ByteAt(k) == ValueAt(8 * k, 8)
BitsInit == run = <<0, 1, 0>> /\ tail = <<>> /\ rpos = 0
Fill(k, w, v) == tail = <<>> /\ RunBits = 0 /\ run' = <<k, w, v>> /\ UNCHANGED <<tail, rpos>>
PutBits(w, v) == tail' = tail \o BitsOf(v, w) /\ UNCHANGED <<run, rpos>>
(* the stream's bytes from byte k on, and how many it has *)
Stored(k, b, n) == /\ n = (Total + 7) \div 8 /\ Len(b) = n - k
                   /\ \A i \in 1..Len(b) : b[i] = ByteAt(k + i - 1)
                   /\ UNCHANGED bvars
GetBits(w, v) == rpos + w <= Total /\ v = ValueAt(rpos, w) /\ rpos' = rpos + w /\ UNCHANGED <<run, tail>>
(* reading the run number by number, bad of them differ from what was written *)
GetRun(bad) == rpos = 0 /\ bad = 0 /\ rpos' = RunBits /\ UNCHANGED <<run, tail>>
Back(k) == k <= rpos /\ rpos' = rpos - k /\ UNCHANGED <<run, tail>>
Rewind == rpos' = 0 /\ UNCHANGED <<run, tail>>
=============================================================================
