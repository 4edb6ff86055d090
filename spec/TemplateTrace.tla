--------------------------- MODULE TemplateTrace ----------------------------
EXTENDS Template, Batch
vars == <<tid, l>>
(* a template was written to a file and processed; the text is compared up  *)
(* to the first collection printed                                          *)
Processed == Is("tmpl") /\ Balanced(E.doc) /\ LET x == Result(E.doc, E.env) k == {i \in 1..Len(x) : x[i] = -1} IN
               IF k = {} THEN E.out = x
               ELSE LET j == (CHOOSE i \in k : \A m \in k : i <= m) - 1 IN SubSeq(E.out, 1, j) = SubSeq(x, 1, j)
TInit == BInit
TNext == Step /\ Processed
TSpec == TInit /\ [][TNext]_vars
=============================================================================
