----------------------------- MODULE TemplateMC -----------------------------
(* Laws of the template language on every sequence of a few fragments:       *)
(* text stands for itself, templates concatenate, a loop is its body         *)
(* unrolled, a condition is its body or nothing, and blocks nest.            *)
EXTENDS Template, TLC
CONSTANT N
Alpha == {36, 123, 125, 97, 47, 255}
OutTag(x) == <<36,123>> \o OUT \o <<32>> \o VALUE \o <<61>> \o x \o <<32,47,125>>
OutTight(x) == <<36,123>> \o OUT \o <<32>> \o VALUE \o <<61>> \o x \o <<47,125>>
For(i, f, body) == <<36,123>> \o FOREACH \o <<32>> \o ITEM \o <<61>> \o i \o <<32>> \o FROM \o <<61>> \o f \o <<125>> \o body \o <<36,123,47>> \o FOREACH \o <<125>>
If(i, x, body) == <<36,123>> \o IFF \o <<32>> \o ITEM \o <<61>> \o i \o <<32>> \o VALUE \o <<61>> \o x \o <<125>> \o body \o <<36,123,47>> \o IFF \o <<125>>
L == <<108>>
X == <<120>>
Y == <<121>>
Q(s) == <<34>> \o s \o <<34>>
I(n) == [t |-> "i", v |-> n]
Env == [t |-> "d", k |-> <<L, X>>, v |-> <<[t |-> "l", v |-> <<I(1), I(2)>>], I(1)>>]
Frags == {<<36>>, <<123>>, <<125>>, <<97>>, <<255>>, OutTag(X), OutTight(Y), OutTag(Q(<<125>>)), OutTight(<<49>>)}
VARIABLES a, b
Init == a \in UNION {[1..n -> Frags] : n \in 0..N} /\ b \in UNION {[1..n -> Frags] : n \in 0..1}
Next == UNCHANGED <<a, b>>
RECURSIVE Cat(_)
Cat(f) == IF f = <<>> THEN <<>> ELSE Head(f) \o Cat(Tail(f))
A == Cat(a)
B == Cat(b)
Ok(f) == Balanced(Cat(f)) /\ \A j \in 1..Len(f) - 1 : ~(f[j] = <<36>> /\ f[j + 1] = <<123>>)
NoTag(s) == TagStart(s, 1) = 0
TextIsItself == NoTag(A) => Result(A, Env) = A
Concatenates == Ok(a) /\ Ok(a \o b) => Result(A \o B, Env) = Result(A, Env) \o Result(B, Env)
Unrolls == Ok(a) => /\ Result(For(X, L, A), Env) = Result(A, Assign(Env, X, I(1))) \o Result(A, Assign(Env, X, I(2)))
                    /\ Result(For(X, Y, A), Env) = <<>>
                    /\ Result(For(Y, L, For(X, L, A)), Env) = LET r(y) == LET e == Assign(Env, Y, I(y)) IN Result(A, Assign(e, X, I(1))) \o Result(A, Assign(e, X, I(2))) IN r(1) \o r(2)
Decides == Ok(a) => /\ Result(If(X, <<49>>, A), Env) = Result(A, Env)
                    /\ Result(If(X, <<50>>, A), Env) = <<>>
                    /\ Result(If(X, Q(<<49>>), A), Env) = <<>>
                    /\ Result(If(X, X, A), Env) = Result(A, Env)
                    /\ Result(If(Y, Y, A), Env) = <<>>
                    /\ Result(For(X, L, If(X, <<50>>, A)), Env) = Result(A, Assign(Env, X, I(2)))
=============================================================================
