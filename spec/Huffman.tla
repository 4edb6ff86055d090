------------------------------ MODULE Huffman -------------------------------
(* Huffman coding. A code maps each symbol of the text to a bit string; the  *)
(* encoded text is the concatenation of its symbols' codes. The design: the  *)
(* two lightest trees of a forest are joined until one is left (any two when *)
(* weights tie); a text of one distinct symbol still gets a code of one bit, *)
(* and the empty text an empty code.                                         *)
EXTENDS Naturals, Sequences, FiniteSets
(* ------------------------------------------------ meaning, used on traces *)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
PrefixFree(code) == \A a, b \in DOMAIN code : a # b => ~IsPrefix(code[a], code[b])
CodeOk(code, text) == /\ {text[i] : i \in 1..Len(text)} \subseteq DOMAIN code
                      /\ \A s \in DOMAIN code : code[s] # <<>>
                      /\ PrefixFree(code)
RECURSIVE Encoded(_, _)
Encoded(code, text) == IF text = <<>> THEN <<>>
    ELSE IF Len(text) = 1 THEN code[text[1]]
    ELSE LET m == Len(text) \div 2 IN Encoded(code, SubSeq(text, 1, m)) \o Encoded(code, SubSeq(text, m + 1, Len(text)))
RECURSIVE Decoded(_, _)
Decoded(code, bits) == IF bits = <<>> THEN <<>>
    ELSE LET s == CHOOSE x \in DOMAIN code : IsPrefix(code[x], bits)
         IN <<s>> \o Decoded(code, SubSeq(bits, Len(code[s]) + 1, Len(bits)))
(* ------------------------------------------------------- design, explored *)
CONSTANTS Symbols, MaxText
VARIABLES text, forest, done
(* a tree: its weight and its code, a function from symbols to bit strings *)
hvars == <<text, forest, done>>
Count(s) == Cardinality({i \in 1..Len(text) : text[i] = s})
Leaf(s) == [w |-> Count(s), c |-> [x \in {s} |-> <<>>]]

HInit == /\ text \in UNION {[1..n -> Symbols] : n \in 0..MaxText}
         /\ forest = {Leaf(text[i]) : i \in 1..Len(text)}
         /\ done = FALSE
Join(a, b) == [w |-> a.w + b.w,
               c |-> [s \in DOMAIN a.c \cup DOMAIN b.c |-> IF s \in DOMAIN a.c THEN <<0>> \o a.c[s] ELSE <<1>> \o b.c[s]]]
Lightest(a, set) == \A t \in set : a.w <= t.w
Merge == /\ ~done /\ Cardinality(forest) > 1
         /\ \E a \in forest : Lightest(a, forest) /\ \E b \in forest \ {a} :
              Lightest(b, forest \ {a}) /\ forest' = (forest \ {a, b}) \cup {Join(a, b)}
         /\ UNCHANGED <<text, done>>
Finish == /\ ~done /\ Cardinality(forest) <= 1 /\ done' = TRUE
          /\ forest' = {IF Cardinality(DOMAIN t.c) = 1 THEN [t EXCEPT !.c = [s \in DOMAIN t.c |-> <<0>>]] ELSE t : t \in forest}
          /\ UNCHANGED text
HNext == Merge \/ Finish
HSpec == HInit /\ [][HNext]_hvars
CodeNow == IF forest = {} THEN [s \in {} |-> <<>>] ELSE (CHOOSE t \in forest : TRUE).c
RoundTrip == done => CodeOk(CodeNow, text) /\ Decoded(CodeNow, Encoded(CodeNow, text)) = text
(* no shorter total is possible: with at most 3 symbols the code is 1 bit for the commonest and 2 for the others *)
Cost == Len(Encoded(CodeNow, text))
Max2(a, b) == IF a > b THEN a ELSE b
Optimal == (done /\ Cardinality(DOMAIN CodeNow) = 3) =>
    \A s \in DOMAIN CodeNow : Cost <= 2 * Len(text) - Count(s)
=============================================================================
