------------------------------ MODULE Template ------------------------------
(* The template language (viriatum_commons/template): the text a template    *)
(* file renders to under an assignment of names. Texts are sequences of      *)
(* bytes. Values are records: [t |-> "i", v |-> integer], [t |-> "s", v |->  *)
(* bytes], [t |-> "l", v |-> sequence of values] and [t |-> "d", k |->       *)
(* sequence of names, v |-> sequence of values].                             *)
(*                                                                           *)
(*   ${out value=X /}                          the value of X                *)
(*   ${foreach item=N from=L}...${/foreach}    once per value of the list L  *)
(*   ${if item=X value=Y operator=eq}...${/if} when X is there and equals Y  *)
(*                                                                           *)
(* Operands are "strings", numbers (a digit first) or names, dotted for the  *)
(* entries of maps. A name with no value prints nothing, iterates nothing    *)
(* and equals nothing. Everything else is text and comes out as it is, any   *)
(* dollar, brace, slash or byte above 127 included, up to the very last one. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
LOCAL MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE TDec(_)
TDec(n) == IF n < 0 THEN <<45>> \o TDec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE TDec(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n = -2147483647 - 1 THEN <<45,50,49,52,55,52,56,51,54,52,56>> ELSE TDec(n)
OUT == <<111,117,116>>
FOREACH == <<102,111,114,101,97,99,104>>
IFF == <<105,102>>
ITEM == <<105,116,101,109>>
FROM == <<102,114,111,109>>
VALUE == <<118,97,108,117,101>>
None == [t |-> "none"]
Sub(s, i, j) == SubSeq(s, i, j)
(* ---- tokens ---- *)
TagStart(s, i) == LET c == {j \in i..Len(s) - 1 : s[j] = 36 /\ s[j + 1] = 123} IN IF c = {} THEN 0 ELSE MinOf(c)
RECURSIVE TagStop(_, _, _)
(* the closing brace, outside of strings; 0 when there is none *)
TagStop(s, i, q) == IF i > Len(s) THEN 0
                    ELSE IF s[i] = 34 THEN TagStop(s, i + 1, ~q)
                    ELSE IF s[i] = 125 /\ ~q THEN i ELSE TagStop(s, i + 1, q)
(* the words of a tag, separated by spaces outside of strings *)
RECURSIVE Words(_, _, _, _, _)
Words(s, i, q, w, acc) ==
    LET done == IF w = <<>> THEN acc ELSE Append(acc, w) IN
    IF i > Len(s) THEN done
    ELSE IF s[i] = 34 THEN Words(s, i + 1, ~q, Append(w, 34), acc)
    ELSE IF s[i] = 32 /\ ~q THEN Words(s, i + 1, q, <<>>, done)
    ELSE Words(s, i + 1, q, Append(w, s[i]), acc)
(* a word name=operand *)
Eq(w) == LET c == {j \in 1..Len(w) : w[j] = 61} IN IF c = {} THEN 0 ELSE MinOf(c)
Operand(x) == IF Len(x) > 1 /\ x[1] = 34 THEN [k |-> "string", v |-> Sub(x, 2, Len(x) - 1)]
              ELSE IF x /= <<>> /\ x[1] \in 48..57 THEN [k |-> "number", v |-> x]
              ELSE [k |-> "name", v |-> x]
Params(ws) == [j \in 1..Len(ws) |-> IF Eq(ws[j]) = 0 THEN [n |-> ws[j], x |-> [k |-> "none", v |-> <<>>]]
                                   ELSE [n |-> Sub(ws[j], 1, Eq(ws[j]) - 1), x |-> Operand(Sub(ws[j], Eq(ws[j]) + 1, Len(ws[j])))]]
Tag(b) == IF b /= <<>> /\ b[1] = 47 THEN [k |-> "close"]
          ELSE LET single == b /= <<>> /\ b[Len(b)] = 47
                   ws == Words(IF single THEN Sub(b, 1, Len(b) - 1) ELSE b, 1, FALSE, <<>>, <<>>) IN
               [k |-> IF single THEN "single" ELSE "open", name |-> IF ws = <<>> THEN <<>> ELSE ws[1], ps |-> IF ws = <<>> THEN <<>> ELSE Params(Tail(ws))]
RECURSIVE Tokens(_, _)
Tokens(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET p == TagStart(s, i) IN
         IF p = 0 THEN <<[k |-> "text", v |-> Sub(s, i, Len(s))]>>
         ELSE LET e == TagStop(s, p + 2, FALSE)
                  text == IF p > i THEN <<[k |-> "text", v |-> Sub(s, i, p - 1)]>> ELSE <<>> IN
              IF e = 0 THEN text ELSE text \o <<Tag(Sub(s, p + 2, e - 1))>> \o Tokens(s, e + 1)
(* ---- the tree: [nodes, next token] up to the closing tag ---- *)
RECURSIVE Build(_, _)
Build(ts, i) ==
    IF i > Len(ts) \/ ts[i].k = "close" THEN [ns |-> <<>>, i |-> i]
    ELSE IF ts[i].k = "open"
         THEN LET in == Build(ts, i + 1) more == Build(ts, in.i + 1) IN
              [ns |-> <<[k |-> "open", name |-> ts[i].name, ps |-> ts[i].ps, sub |-> in.ns]>> \o more.ns, i |-> more.i]
         ELSE LET more == Build(ts, i + 1) IN [ns |-> <<ts[i]>> \o more.ns, i |-> more.i]
Parse(s) == Build(Tokens(s, 1), 1).ns
Balanced(s) == LET ts == Tokens(s, 1)
                   D(i) == Cardinality({j \in 1..i : ts[j].k = "open"}) - Cardinality({j \in 1..i : ts[j].k = "close"}) IN
               (\A i \in 1..Len(ts) : D(i) >= 0) /\ (Len(ts) > 0 => D(Len(ts)) = 0)
(* ---- names ---- *)
RECURSIVE Dots(_, _, _, _)
Dots(n, i, w, acc) == LET done == IF w = <<>> THEN acc ELSE Append(acc, w) IN
                      IF i > Len(n) THEN done ELSE IF n[i] = 46 THEN Dots(n, i + 1, <<>>, done) ELSE Dots(n, i + 1, Append(w, n[i]), acc)
Entry(m, k) == LET c == {j \in 1..Len(m.k) : m.k[j] = k} IN IF c = {} THEN None ELSE m.v[MinOf(c)]
RECURSIVE Walk(_, _)
Walk(v, ks) == IF ks = <<>> THEN v ELSE IF v.t /= "d" THEN None ELSE Walk(Entry(v, Head(ks)), Tail(ks))
Find(env, n) == LET ks == Dots(n, 1, <<>>, <<>>) IN IF ks = <<>> THEN None ELSE Walk(env, ks)
Assign(env, n, v) == LET c == {j \in 1..Len(env.k) : env.k[j] = n} IN
                     IF c = {} THEN [t |-> "d", k |-> Append(env.k, n), v |-> Append(env.v, v)]
                     ELSE [env EXCEPT !.v = [@ EXCEPT ![MinOf(c)] = v]]
(* the last parameter of a name; "none" when there is none *)
Par(ps, n) == LET c == {j \in 1..Len(ps) : ps[j].n = n} IN
              IF c = {} THEN [k |-> "none", v |-> <<>>] ELSE ps[CHOOSE x \in c : \A y \in c : y <= x].x
(* ---- rendering: what comes out and the names afterwards (the item of a    *)
(* loop keeps its last value). How collections print is left open: -1 ---- *)
Text(v) == CASE v.t = "i" -> IntText(v.v) [] v.t = "s" -> v.v [] v.t = "none" -> <<>> [] OTHER -> <<-1>>
RECURSIVE Num(_, _, _)
Num(x, i, a) == IF i > Len(x) \/ x[i] \notin 48..57 THEN a ELSE Num(x, i + 1, a * 10 + x[i] - 48)
Same(v, w) == v.t = w.t /\ v.t \in {"i", "s"} /\ v.v = w.v
Holds(env, ps) == LET a == Par(ps, ITEM) b == Par(ps, VALUE) IN
    /\ a.k = "name" /\ b.k /= "none"
    /\ Same(Find(env, a.v), CASE b.k = "string" -> [t |-> "s", v |-> b.v] [] b.k = "number" -> [t |-> "i", v |-> Num(b.v, 1, 0)] [] OTHER -> Find(env, b.v))
RECURSIVE Render(_, _, _)
RECURSIVE Loop(_, _, _, _)
Node(n, env) ==
    CASE n.k = "text" -> [out |-> n.v, env |-> env]
      [] n.k /= "text" /\ n.name = OUT -> LET x == Par(n.ps, VALUE) IN
            [out |-> CASE x.k = "string" -> x.v [] x.k = "number" -> x.v [] x.k = "name" -> Text(Find(env, x.v)) [] OTHER -> <<>>, env |-> env]
      [] n.k = "open" /\ n.name = FOREACH ->
            LET it == Par(n.ps, ITEM) from == Par(n.ps, FROM) l == Find(env, from.v) IN
            IF it.k /= "name" \/ from.k /= "name" \/ l.t /= "l" THEN [out |-> <<>>, env |-> env] ELSE Loop(n.sub, it.v, l.v, env)
      [] n.k = "open" /\ n.name = IFF -> IF Holds(env, n.ps) THEN Render(n.sub, env, <<>>) ELSE [out |-> <<>>, env |-> env]
      [] OTHER -> [out |-> <<>>, env |-> env]
Loop(sub, it, vs, env) == IF vs = <<>> THEN [out |-> <<>>, env |-> env]
                          ELSE LET a == Render(sub, Assign(env, it, Head(vs)), <<>>) b == Loop(sub, it, Tail(vs), a.env) IN
                               [out |-> a.out \o b.out, env |-> b.env]
Render(ns, env, acc) == IF ns = <<>> THEN [out |-> acc, env |-> env]
                        ELSE LET a == Node(Head(ns), env) IN Render(Tail(ns), a.env, acc \o a.out)
Result(s, env) == Render(Parse(s), env, <<>>).out
=============================================================================
