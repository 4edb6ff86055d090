------------------------------ MODULE Stream --------------------------------
(* memory and file streams as an ordinary file: its data, in units, and the  *)
(* position. A unit never written that lies before one that was is a zero.   *)
(* A memory stream starts empty at each open; a file follows its mode.       *)
EXTENDS Naturals, Sequences
VARIABLES data, pos, open, mode
svars == <<data, pos, open, mode>>
CONSTANT Modes
Reads(m) == m \in {"mem", "w+", "r+", "r"}
Writes(m) == m \in {"mem", "w+", "r+", "w"}
Truncates(m) == m \in {"mem", "w+", "w"}
FInit == data = <<>> /\ pos = 0 /\ open = FALSE /\ mode = "mem"
FOpen(m) == /\ ~open /\ open' = TRUE /\ mode' = m /\ pos' = 0
            /\ data' = IF Truncates(m) THEN <<>> ELSE data
FClose == open /\ open' = FALSE /\ UNCHANGED <<data, pos, mode>>
Least(a, b) == IF a < b THEN a ELSE b
(* what a read of n units at the position gives *)
ReadOf(n) == IF pos >= Len(data) THEN <<>> ELSE SubSeq(data, pos + 1, Least(pos + n, Len(data)))
FRead(n, r) == /\ open /\ Reads(mode) /\ r = ReadOf(n)
               /\ pos' = pos + Len(r) /\ UNCHANGED <<data, open, mode>>
Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
After(w) == IF pos + Len(w) >= Len(data) THEN Pad(data, pos) \o w
            ELSE SubSeq(data, 1, pos) \o w \o SubSeq(data, pos + Len(w) + 1, Len(data))
FWrite(w) == /\ open /\ Writes(mode)
             /\ data' = (IF w = <<>> THEN data ELSE After(w))
             /\ pos' = pos + Len(w) /\ UNCHANGED <<open, mode>>
FSeek(p) == open /\ pos' = p /\ UNCHANGED <<data, open, mode>>
FFlush == open /\ UNCHANGED svars
FSize(n) == open /\ n = Len(data) /\ UNCHANGED svars
FTell(n) == open /\ n = pos /\ UNCHANGED svars
(* properties of the specification itself *)
WriteExact == [][\A w \in {<<1>>, <<2>>, <<1, 2>>} :
    FWrite(w) => /\ SubSeq(data', pos + 1, pos + Len(w)) = w
                 /\ Len(data') = (IF pos + Len(w) > Len(data) THEN pos + Len(w) ELSE Len(data))
                 /\ \A i \in 1..Len(data) : (i <= pos \/ i > pos + Len(w)) => data'[i] = data[i]]_svars
=============================================================================
