------------------------------- MODULE Text ----------------------------------
(* What the text formats mean, over sequences of bytes: lines and white space,*)
(* INI files, password files, URLs, command lines, percent encoding, Base64.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions
ABSENT == <<-1>>
White(c) == c \in {32, 9}
FirstAt(s, c) == IF \E i \in 1..Len(s) : s[i] = c THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c ELSE 0
Trim(s) == IF \A i \in 1..Len(s) : White(s[i]) THEN <<>>
           ELSE SubSeq(s, CHOOSE i \in 1..Len(s) : ~White(s[i]) /\ \A j \in 1..(i - 1) : White(s[j]),
                          CHOOSE i \in 1..Len(s) : ~White(s[i]) /\ \A j \in (i + 1)..Len(s) : White(s[j]))
\* the pieces of s between the bytes in cs (one more than there are such bytes)
Split(s, cs) == LET b == SetToSortSeq({i \in 1..Len(s) : s[i] \in cs}, <)
                    At(k) == IF k = 0 THEN 0 ELSE IF k > Len(b) THEN Len(s) + 1 ELSE b[k]
                IN [k \in 1..(Len(b) + 1) |-> SubSeq(s, At(k - 1) + 1, At(k) - 1)]
Past(s, i) == SubSeq(s, i + 1, Len(s))
Upto(s, i) == SubSeq(s, 1, i - 1)
Digit(c) == c \in 48..57

(* ------------------------------------------------------------------ INI --- *)
\* state: current section, assignments so far <<section, key, value>>, and whether
\* a line was met whose meaning is not determined
IniLine(st, line) ==
    LET s == Trim(line) IN
    IF s = <<>> \/ s[1] = 59 THEN st
    ELSE IF s[1] = 91 THEN
        LET p == FirstAt(s, 93) rest == Trim(Past(s, p)) IN
        IF p = 0 THEN st
        ELSE [st EXCEPT !.sec = Trim(SubSeq(s, 2, p - 1)), !.loose = @ \/ (rest # <<>> /\ rest[1] # 59)]
    ELSE LET p == FirstAt(s, 61) IN
        IF p = 0 THEN st
        ELSE IF p = 1 THEN [st EXCEPT !.loose = TRUE]
        ELSE [st EXCEPT !.asg = Append(@, <<st.sec, Trim(Upto(s, p)), Trim(Past(s, p))>>)]
Ini(t) == FoldLeft(IniLine, [sec |-> <<>>, asg |-> <<>>, loose |-> FirstAt(t, 0) # 0], Split(t, {10, 13}))
\* the first occurrences of the elements of a sequence, in order
Firsts(q) == FoldLeft(LAMBDA r, x : IF \E i \in 1..Len(r) : r[i] = x THEN r ELSE Append(r, x), <<>>, q)
IniMap(asg) ==
    LET secs == Firsts([i \in 1..Len(asg) |-> asg[i][1]]) IN
    [k \in 1..Len(secs) |->
        LET mine == SelectSeq(asg, LAMBDA a : a[1] = secs[k])
            keys == Firsts([i \in 1..Len(mine) |-> mine[i][2]])
        IN [s |-> secs[k], kv |-> [j \in 1..Len(keys) |-> <<keys[j], mine[Max({i \in 1..Len(mine) : mine[i][2] = keys[j]})][3]>>]]]
IniOk(t, err, r) == LET p == Ini(t) IN p.loose \/ (~err /\ SelectSeq(r, LAMBDA x : x.kv # <<>>) = IniMap(p.asg))

(* ------------------------------------------------------ password files --- *)
Chop(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN Upto(s, Len(s)) ELSE s
\* <<user, password>> of each line that has them
PwLines(t) == LET L == Split(t, {10}) IN
    SelectSeq([k \in 1..Len(L) |-> LET s == Chop(L[k]) p == FirstAt(s, 58) rest == Past(s, p) q == FirstAt(rest, 58)
                                   IN IF p = 0 THEN <<>> ELSE <<Upto(s, p), IF q = 0 THEN rest ELSE Upto(rest, q)>>], LAMBDA x : x # <<>>)
PwOk(t, err, r) ==
    LET e == PwLines(t) named == SelectSeq(e, LAMBDA x : x[1] # <<>>)
        Pw(u) == e[Max({i \in 1..Len(e) : e[i][1] = u})][2]
        got == {r[i] : i \in 1..Len(r)}
        must == {<<named[i][1], Pw(named[i][1])>> : i \in 1..Len(named)}
    IN FirstAt(t, 0) # 0 \/ (~err /\ must \subseteq got /\ \A x \in got \ must : x[1] = <<>> /\ (\E i \in 1..Len(e) : e[i] = x) /\ Cardinality(got) = Len(r))

(* ------------------------------------------------------------------ URLs --- *)
\* a URL as a record of its parts; ABSENT marks a part that is not there
Opt(pre, x) == IF x = ABSENT THEN <<>> ELSE pre \o x
UrlText(u) == u.scheme \o <<58, 47, 47>> \o (IF u.user = ABSENT THEN <<>> ELSE u.user \o Opt(<<58>>, u.pass) \o <<64>>)
              \o u.host \o Opt(<<58>>, u.ports) \o Opt(<<>>, u.path) \o Opt(<<63>>, u.query) \o Opt(<<35>>, u.frag)
NumOf(s) == FoldLeft(LAMBDA n, d : n * 10 + (d - 48), 0, s)
PortOf(u) == IF u.ports \in {ABSENT, <<>>} THEN 0 ELSE NumOf(u.ports)
Bare(x) == IF x = ABSENT THEN <<>> ELSE x
Limit == [scheme |-> 63, user |-> 127, pass |-> 127, host |-> 255, path |-> 1023, query |-> 1023, frag |-> 255]
UrlOk(u, r, s) ==
    /\ ~r.err /\ \A k \in {"scheme", "user", "pass", "host", "ports", "path", "query", "frag"} : r[k] = u[k]
    /\ r.port = PortOf(u)
    \* copied out: the same parts, absent ones empty; refused only when a part is longer than there is room for
    /\ IF s.err THEN \E k \in DOMAIN Limit : Len(u[k]) > Limit[k]
       ELSE s.port = r.port /\ \A k \in DOMAIN Limit : s[k] = Bare(u[k])
\* any other input: refused, or split into parts of the input, the copies agreeing with them
Within(x, t) == x = ABSENT \/ \E i \in 0..(Len(t) - Len(x)) : SubSeq(t, i + 1, i + Len(x)) = x
UrlAny(t, r, s) == IF r.err THEN s.err
    ELSE /\ \A k \in {"scheme", "user", "pass", "host", "ports", "path", "query", "frag"} : Within(r[k], t)
         /\ s.err \/ \A k \in DOMAIN Limit : LET z == FirstAt(Bare(r[k]), 0) IN s[k] = (IF z = 0 THEN Bare(r[k]) ELSE Upto(r[k], z))

(* --------------------------------------------------------- command lines --- *)
\* <<>> for an argument that is no option, else <<name, has a value, value>>
Option(a) == IF Len(a) < 2 \/ a[1] # 45 THEN <<>>
             ELSE LET b == IF a[2] = 45 THEN SubSeq(a, 3, Len(a)) ELSE SubSeq(a, 2, Len(a))
                      p == FirstAt(b, 61)
                  IN IF p = 0 THEN <<b, FALSE, <<>>>> ELSE <<Upto(b, p), TRUE, Past(b, p)>>
ArgsOk(t, r) ==
    LET L == Split(t, {0}) opts == SelectSeq([k \in 1..(Len(L) - 1) |-> Option(L[k])], LAMBDA x : x # <<>>)
        loose == \E i \in 1..(Len(L) - 1) : LET o == Option(L[i]) IN o # <<>> /\ o[1] = <<>>
        names == {opts[i][1] : i \in 1..Len(opts)} \ {<<>>}
        Val(n) == opts[Max({i \in 1..Len(opts) : opts[i][1] = n})]
        keys == {r[i].k : i \in 1..Len(r)}
    IN loose \/ (/\ keys = names /\ Len(r) = Cardinality(names)
                 /\ \A i \in 1..Len(r) : r[i].n = r[i].k /\ (r[i].t = 1) = Val(r[i].k)[2] /\ (r[i].t = 1 => r[i].v = Val(r[i].k)[3]))

(* ------------------------------------------------------ percent encoding --- *)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
\* decoding, in one pass: state is what was produced and what is pending (after a percent sign)
Plain(c) == IF c = 43 THEN 32 ELSE c
PctStep(st, c) ==
    IF st.p = <<>> THEN (IF c = 37 THEN [st EXCEPT !.p = <<37>>] ELSE [st EXCEPT !.o = Append(@, Plain(c))])
    ELSE IF Len(st.p) = 1 THEN (IF Hex(c) < 16 THEN [st EXCEPT !.p = <<37, c>>]
                                ELSE IF c = 37 THEN [o |-> Append(st.o, 37), p |-> <<37>>]
                                ELSE [o |-> st.o \o <<37, Plain(c)>>, p |-> <<>>])
    ELSE IF Hex(c) < 16 THEN [o |-> Append(st.o, Hex(st.p[2]) * 16 + Hex(c)), p |-> <<>>]
    ELSE IF c = 37 THEN [o |-> st.o \o st.p, p |-> <<37>>]
    ELSE [o |-> (st.o \o st.p) \o <<Plain(c)>>, p |-> <<>>]
PctDecode(t) == LET st == FoldLeft(PctStep, [o |-> <<>>, p |-> <<>>], t) IN st.o \o st.p
UrlChars == (48..57) \cup (65..90) \cup (97..122) \cup {45, 46, 95, 126, 33, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 47, 58, 59, 61, 63, 64, 91, 93}
PctOk(t, enc, back, dec) == /\ back = t /\ PctDecode(enc) = t /\ \A i \in 1..Len(enc) : enc[i] \in UrlChars
                            /\ dec = PctDecode(t)

(* ---------------------------------------------------------------- Base64 --- *)
B64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
Val64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 99
Get(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
B64Encode(t) == FlattenSeq([k \in 1..((Len(t) + 2) \div 3) |->
    LET i == 3 * k - 2 a == Get(t, i) b == Get(t, i + 1) c == Get(t, i + 2)
    IN <<B64(a \div 4), B64((a % 4) * 16 + b \div 16),
         IF i + 1 <= Len(t) THEN B64((b % 16) * 4 + c \div 64) ELSE 61, IF i + 2 <= Len(t) THEN B64(c % 64) ELSE 61>>])
B64Valid(t) == Len(t) % 4 = 0 /\ \A i \in 1..Len(t) : Val64(t[i]) < 64 \/ (t[i] = 61 /\ (i = Len(t) \/ (i = Len(t) - 1 /\ t[i + 1] = 61)))
B64Decode(t) ==
    LET V(i) == IF Val64(t[i]) < 64 THEN Val64(t[i]) ELSE 0
        pad == Cardinality({i \in 1..Len(t) : t[i] = 61})
        all == FlattenSeq([k \in 1..(Len(t) \div 4) |-> LET i == 4 * k - 3 IN
                  <<V(i) * 4 + V(i + 1) \div 16, (V(i + 1) % 16) * 16 + V(i + 2) \div 4, (V(i + 2) % 4) * 64 + V(i + 3)>>])
    IN SubSeq(all, 1, Len(all) - pad)
\* a valid text whose last bits are not zero may be refused or decoded
B64Ok(t, enc, back, dec) == /\ enc = B64Encode(t) /\ back = t
                            /\ IF B64Valid(t) THEN dec = B64Decode(t) \/ (dec = ABSENT /\ B64Encode(B64Decode(t)) # t) ELSE dec = ABSENT
=============================================================================
