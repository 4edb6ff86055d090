----------------------------- MODULE Bencoding ------------------------------
(* Bencoded documents (sequences of bytes) and the values they denote.       *)
(* A value is written flat: <<105, n>> \o text for an integer in decimal,    *)
(* <<115, n>> \o bytes for a string, <<108>> \o elements \o <<101>> for a    *)
(* list and <<100>> \o (key, value)* \o <<101>> for a map, keys as strings.  *)
(* Decoding is a machine with a stack of open lists and maps. Integers are   *)
(* those of 32 bits, keys have no zero byte and differ within a map.         *)
EXTENDS Naturals, Sequences, FiniteSets
IsDigit(c) == c \in 48..57
RECURSIVE DigitsValue(_)
DigitsValue(t) == IF t = <<>> THEN 0 ELSE 10 * DigitsValue(SubSeq(t, 1, Len(t) - 1)) + (t[Len(t)] - 48)
RECURSIVE DecText(_)
DecText(n) == IF n < 10 THEN <<48 + n>> ELSE DecText(n \div 10) \o <<48 + (n % 10)>>
Digits(t) == t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i])
NoLeadingZero(t) == Len(t) = 1 \/ t[1] # 48
MaxPos == <<50,49,52,55,52,56,51,54,52,55>>     \* 2147483647
MaxNeg == <<50,49,52,55,52,56,51,54,52,56>>
NotOver(t, m) == Len(t) < Len(m) \/ (Len(t) = Len(m) /\
    (t = m \/ \E i \in 1..Len(m) : t[i] < m[i] /\ \A j \in 1..(i - 1) : t[j] = m[j]))
IsInt(t) == t # <<>> /\ IF t[1] = 45 THEN LET d == Tail(t) IN Digits(d) /\ d[1] # 48 /\ NotOver(d, MaxNeg)
                        ELSE Digits(t) /\ NoLeadingZero(t) /\ NotOver(t, MaxPos)
(* first position from i of byte c, 0 if there is none *)
RECURSIVE Find(_, _, _)
Find(s, i, c) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE Find(s, i + 1, c)
(* ----------------------------------------------------------------- machine *)
(* frame: [map, key (awaiting a key), keys (seen)]                           *)
M0 == [i |-> 1, stack |-> <<>>, out |-> <<>>, ok |-> TRUE, spaces |-> FALSE]
Fail(m) == [m EXCEPT !.ok = FALSE]
Top(m) == m.stack[Len(m.stack)]
Complete(m) == m.stack = <<>> /\ m.out # <<>>
WantsKey(m) == m.stack # <<>> /\ Top(m).map /\ Top(m).key
(* a value has been completed: in a map, the next thing is a key *)
Placed(stack) == IF stack = <<>> \/ ~stack[Len(stack)].map THEN stack
                 ELSE [stack EXCEPT ![Len(stack)].key = TRUE]
StrAt(s, i) == LET j == Find(s, i, 58) t == IF j = 0 THEN <<>> ELSE SubSeq(s, i, j - 1) IN
    IF j = 0 \/ ~Digits(t) \/ ~NoLeadingZero(t) \/ Len(t) > 6 THEN [ok |-> FALSE]
    ELSE LET n == DigitsValue(t) IN IF j + n > Len(s) THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, b |-> SubSeq(s, j + 1, j + n), next |-> j + n + 1]
Token(s, m) == LET c == s[m.i] IN
    IF c = 32 THEN [m EXCEPT !.i = @ + 1, !.spaces = TRUE]
    ELSE IF Complete(m) THEN Fail(m)
    ELSE IF IsDigit(c) THEN
        LET r == StrAt(s, m.i) IN
        IF ~r.ok THEN Fail(m)
        ELSE LET o == m.out \o <<115, Len(r.b)>> \o r.b IN
             IF WantsKey(m)
             THEN IF r.b \in Top(m).keys \/ (\E k \in 1..Len(r.b) : r.b[k] = 0) THEN Fail(m)
                  ELSE [m EXCEPT !.i = r.next, !.out = o, !.stack = [@ EXCEPT ![Len(@)].key = FALSE, ![Len(@)].keys = @ \cup {r.b}]]
             ELSE [m EXCEPT !.i = r.next, !.out = o, !.stack = Placed(@)]
    ELSE IF c = 101 THEN
        IF m.stack = <<>> \/ (Top(m).map /\ ~Top(m).key) THEN Fail(m)
        ELSE [m EXCEPT !.i = @ + 1, !.out = Append(@, 101), !.stack = Placed(SubSeq(@, 1, Len(@) - 1))]
    ELSE IF WantsKey(m) THEN Fail(m)
    ELSE IF c = 105 THEN
        LET j == Find(s, m.i + 1, 101) t == IF j = 0 THEN <<>> ELSE SubSeq(s, m.i + 1, j - 1) IN
        IF j = 0 \/ ~IsInt(t) THEN Fail(m)
        ELSE [m EXCEPT !.i = j + 1, !.out = @ \o <<105, Len(t)>> \o t, !.stack = Placed(@)]
    ELSE IF c = 108 \/ c = 100 THEN
        [m EXCEPT !.i = @ + 1, !.out = Append(@, c), !.stack = Append(@, [map |-> c = 100, key |-> TRUE, keys |-> {}])]
    ELSE Fail(m)
RECURSIVE Run(_, _)
Run(s, m) == IF ~m.ok \/ m.i > Len(s) THEN m ELSE Run(s, Token(s, m))
Decode(s) == LET m == Run(s, M0) IN [ok |-> m.ok /\ Complete(m), v |-> m.out, spaces |-> m.spaces]
(* ---------------------------------------------------------------- encoding *)
RECURSIVE EncFrom(_, _)
EncFrom(v, i) == IF i > Len(v) THEN <<>>
    ELSE IF v[i] = 105 THEN <<105>> \o SubSeq(v, i + 2, i + 1 + v[i + 1]) \o <<101>> \o EncFrom(v, i + 2 + v[i + 1])
    ELSE IF v[i] = 115 THEN DecText(v[i + 1]) \o <<58>> \o SubSeq(v, i + 2, i + 1 + v[i + 1]) \o EncFrom(v, i + 2 + v[i + 1])
    ELSE <<v[i]>> \o EncFrom(v, i + 1)
Encode(v) == EncFrom(v, 1)
=============================================================================
