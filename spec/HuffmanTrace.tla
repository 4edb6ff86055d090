---------------------------- MODULE HuffmanTrace ----------------------------
(* one event per text: the code table, the encoded bytes and what the tree   *)
(* and table decoders gave back                                              *)
EXTENDS Naturals, Sequences, Batch
HU == INSTANCE Huffman WITH Symbols <- {}, MaxText <- 0, text <- <<>>, forest <- {}, done <- FALSE
vars == <<tid, l>>
RECURSIVE ValueAt(_, _, _)
ValueAt(bits, i, w) == IF w = 0 THEN 0 ELSE 2 * ValueAt(bits, i, w - 1) + (IF i + w <= Len(bits) THEN bits[i + w] ELSE 0)
(* codes: a list of [s, c]; as a function *)
CodeFn(cs) == [s \in {cs[i].s : i \in 1..Len(cs)} |-> (CHOOSE i \in 1..Len(cs) : cs[i].s = s)]
Codes == LET f == CodeFn(E.codes) IN [s \in DOMAIN f |-> E.codes[f[s]].c]
Small == /\ Is("huff")
         /\ HU!CodeOk(Codes, E.t)
         /\ LET bits == HU!Encoded(Codes, E.t) IN
              /\ E.bits = Len(bits)
              /\ Len(E.enc) = (Len(bits) + 7) \div 8
              /\ \A k \in 1..Len(E.enc) : E.enc[k] = ValueAt(bits, 8 * (k - 1), 8)
         /\ E.tree = E.t /\ E.table = E.t
RECURSIVE Sum(_, _)
Sum(cs, i) == IF i = 0 THEN 0 ELSE cs[i].n * Len(cs[i].c) + Sum(cs, i - 1)
(* a long text is summarised: how often each symbol occurs, and the position *)
(* of the first difference of what was decoded (-1: none)                    *)
Large == /\ Is("huffbig")
         /\ HU!CodeOk(Codes, <<>>)
         /\ E.bits = Sum(E.codes, Len(E.codes)) /\ E.enc = (E.bits + 7) \div 8
         /\ E.missing = 0 /\ E.tree = -1 /\ E.table = -1
TInit == BInit
TNext == Step /\ (Small \/ Large)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
