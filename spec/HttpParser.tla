----------------------------- MODULE HttpParser -----------------------------
(* The request parser (viriatum/http/http_parser.c): a machine that takes    *)
(* one byte at a time and reports the elements of a message as they end.     *)
(* Because it is a fold over the bytes, what it reports cannot depend on how *)
(* they are cut into calls. The grammar is HTTP/1.x with the tolerances of   *)
(* the parser, which are part of it:                                         *)
(*   - blank lines before a request; LF alone ends a line; the byte after a  *)
(*     CR is taken as LF; after the H of the version three bytes are skipped,*)
(*     then one for the slash                                                *)
(*   - a request line without version is version 0.9                         *)
(*   - spaces in header names; lines without colon; folded values, reported  *)
(*     as further values                                                     *)
(*   - the last Content-Length counts, spaces inside it are skipped          *)
(* A state is a record: st, the element so far (cur), method (m), version,   *)
(* kind of the header being read (hs), content length (cl, -1: none), flags  *)
(* and the events so far (ev). Events are records with field k.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Methods == <<<<68,69,76,69,84,69>>,
  <<71,69,84>>,
  <<72,69,65,68>>,
  <<80,79,83,84>>,
  <<80,85,84>>,
  <<67,79,78,78,69,67,84>>,
  <<79,80,84,73,79,78,83>>,
  <<84,82,65,67,69>>,
  <<67,79,80,89>>,
  <<76,79,67,75>>,
  <<77,75,67,79,76>>,
  <<77,79,86,69>>,
  <<80,82,79,80,70,73,78,68>>,
  <<80,82,79,80,80,65,84,67,72>>,
  <<85,78,76,79,67,75>>,
  <<82,69,80,79,82,84>>,
  <<77,75,65,67,84,73,86,73,84,89>>,
  <<67,72,69,67,75,79,85,84>>,
  <<77,69,82,71,69>>,
  <<77,45,83,69,65,82,67,72>>,
  <<78,79,84,73,70,89>>,
  <<83,85,66,83,67,82,73,66,69>>,
  <<85,78,83,85,66,83,67,82,73,66,69>>,
  <<80,65,84,67,72>>>>
MethodSet == {Methods[i] : i \in 1..Len(Methods)}
MethodNo(m) == CHOOSE i \in 1..Len(Methods) : Methods[i] = m
MaxInt == 2147483647
(* "connection", "proxy-connection", "content-length", "transfer-encoding", "upgrade", "chunked", "keep-alive", "close" *)
CONN == <<99,111,110,110,101,99,116,105,111,110>>
PCONN == <<112,114,111,120,121,45,99,111,110,110,101,99,116,105,111,110>>
CLEN == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
TENC == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
UPGR == <<117,112,103,114,97,100,101>>
CHUNKED == <<99,104,117,110,107,101,100>>
KEEP == <<107,101,101,112,45,97,108,105,118,101>>
CLOSE == <<99,108,111,115,101>>
Num(b) == b \in 48..57
LetterU(b) == b \in 65..90
Lower(b) == IF LetterU(b) THEN b + 32 ELSE b
Alpha(b) == b \in 65..90 \/ b \in 97..122
HostByte(b) == Alpha(b) \/ Num(b) \/ b \in {45, 46, 95}
UrlByte(b) == b > 127 \/ (b \in 33..126 /\ b \notin {35, 63})
TokenByte(b) == Alpha(b) \/ Num(b) \/ b \in {32, 33, 34, 35, 36, 37, 38, 39, 42, 43, 45, 46, 47, 94, 95, 96, 124, 125, 126}
Hex(b) == IF Num(b) THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE -1
IsWord(w, s) == Len(s) >= Len(w) /\ (\A i \in 1..Len(w) : Lower(s[i]) = w[i]) /\ \A i \in Len(w) + 1..Len(s) : s[i] = 32
(* ---- states ---- *)
Start == [st |-> "start", cur |-> <<>>, m |-> <<>>, maj |-> 0, min |-> 0, hs |-> "", cl |-> -1, chunked |-> FALSE, keep |-> FALSE, close |-> FALSE, trail |-> FALSE, left |-> 0, ev |-> <<>>]
Emit(s, e) == [s EXCEPT !.ev = Append(@, e)]
EmitBody(s, b) == LET n == Len(s.ev) IN
    IF n > 0 /\ s.ev[n].k = "body" THEN [s EXCEPT !.ev[n].v = Append(@, b)] ELSE Emit(s, [k |-> "body", v |-> <<b>>])
To(s, x) == [s EXCEPT !.st = x]
Err(s) == [s EXCEPT !.st = "error"]
Done(s) == [Emit(s, [k |-> "complete"]) EXCEPT !.st = "done"]
Add(s, b) == [s EXCEPT !.cur = Append(@, b)]
Url(s) == [Emit(s, [k |-> "url", v |-> s.cur, m |-> MethodNo(s.m)]) EXCEPT !.cur = <<>>]
Line(s) == [Emit(s, [k |-> "line", maj |-> s.maj, min |-> s.min]) EXCEPT !.st = "field0"]
Old(s) == [s EXCEPT !.maj = 0, !.min = 9]
Field(s) == LET n == s.cur IN
    [Emit(s, [k |-> "field", v |-> n]) EXCEPT !.cur = <<>>,
       !.hs = IF IsWord(CONN, n) \/ IsWord(PCONN, n) THEN "connection" ELSE IF IsWord(CLEN, n) THEN "length" ELSE IF IsWord(TENC, n) THEN "coding" ELSE ""]
Value(s) == [Emit(s, [k |-> "value", v |-> s.cur]) EXCEPT !.cur = <<>>]
(* the end of a header line: what its value means *)
Means(s) == LET v == s.cur IN
    [Value(s) EXCEPT !.keep = @ \/ (s.hs = "connection" /\ IsWord(KEEP, v)), !.close = @ \/ (s.hs = "connection" /\ IsWord(CLOSE, v)),
                     !.chunked = @ \/ (s.hs = "coding" /\ IsWord(CHUNKED, v)), !.hs = IF s.hs = "length" THEN "length" ELSE ""]
Headers(s) ==
    IF s.trail THEN Done(s)
    ELSE LET e == Emit(s, [k |-> "headers", keep |-> s.keep, close |-> s.close, chunked |-> s.chunked, cl |-> s.cl]) IN
         IF s.chunked THEN To(e, "csize0") ELSE IF s.cl > 0 THEN [e EXCEPT !.st = "body", !.left = s.cl] ELSE Done(e)
(* the rest of a target after its authority or path *)
AfterUrl(s, b, frag) ==
    CASE b = 32 -> To(Url(s), "ver0")
      [] b = 13 -> To(Old(Url(s)), "lineLF")
      [] b = 10 -> Line(Old(Url(s)))
      [] b = 63 -> To(Add(s, b), IF frag THEN "frag" ELSE "query")
      [] b = 35 -> To(Add(s, b), "frag")
      [] OTHER -> Err(s)
Field0(s, b) == CASE b = 13 -> To(s, "endLF")
                  [] b = 10 -> Headers(s)
                  [] b \notin {10, 13} /\ TokenByte(b) -> [s EXCEPT !.st = "field", !.cur = <<b>>, !.hs = ""]
                  [] OTHER -> Err(s)
Length(s, b) == IF b = 32 THEN s ELSE IF ~Num(b) \/ s.cl > (MaxInt - (b - 48)) \div 10 THEN Err(s) ELSE [s EXCEPT !.cl = @ * 10 + b - 48]
Byte(s, b) ==
  CASE s.st = "start" ->
         IF b \in {10, 13} THEN s
         ELSE LET n == Emit(Start, [k |-> "begin"]) IN
              IF \E m \in MethodSet : m[1] = b THEN [n EXCEPT !.st = "method", !.m = <<b>>] ELSE Err(n)
    [] s.st = "method" ->
         IF b = 32 THEN (IF s.m \in MethodSet THEN To(s, "target0") ELSE Err(s))
         ELSE LET m == Append(s.m, b) IN IF \E x \in MethodSet : Len(x) >= Len(m) /\ SubSeq(x, 1, Len(m)) = m THEN [s EXCEPT !.m = m] ELSE Err(s)
    [] s.st = "target0" ->
         IF b = 32 THEN s
         ELSE IF b \in {42, 47} THEN To(Add(s, b), "path")
         ELSE IF s.m = Methods[6] /\ (Alpha(b) \/ Num(b)) THEN To(Add(s, b), "host")
         ELSE IF Alpha(b) THEN To(Add(s, b), "schema") ELSE Err(s)
    [] s.st = "schema" -> IF Alpha(b) THEN Add(s, b) ELSE IF b = 58 THEN To(Add(s, b), "slash1") ELSE Err(s)
    [] s.st = "slash1" -> To(Add(s, b), "slash2")
    [] s.st = "slash2" -> To(Add(s, b), "host")
    [] s.st \in {"host", "port"} ->
         IF (s.st = "host" /\ HostByte(b)) \/ (s.st = "port" /\ Num(b)) THEN Add(s, b)
         ELSE CASE b = 58 /\ s.st = "host" -> To(Add(s, b), "port")
                [] b = 47 -> To(Add(s, b), "path")
                [] b = 32 -> To(Url(s), "ver0")
                [] b = 63 -> To(Add(s, b), "query")
                [] OTHER -> Err(s)
    [] s.st \in {"path", "query", "frag"} -> IF UrlByte(b) THEN Add(s, b) ELSE AfterUrl(s, b, s.st = "frag")
    [] s.st = "ver0" -> IF b = 72 THEN To(s, "ver1") ELSE IF b = 32 THEN s ELSE Err(s)
    [] s.st = "ver1" -> To(s, "ver2")
    [] s.st = "ver2" -> To(s, "ver3")
    [] s.st = "ver3" -> To(s, "ver4")
    [] s.st = "ver4" -> To(s, "maj0")
    [] s.st = "maj0" -> IF b \in 49..57 THEN [s EXCEPT !.st = "maj", !.maj = b - 48] ELSE Err(s)
    [] s.st = "maj" -> IF b = 46 THEN To(s, "min0") ELSE IF Num(b) /\ s.maj * 10 + b - 48 <= 999 THEN [s EXCEPT !.maj = @ * 10 + b - 48] ELSE Err(s)
    [] s.st = "min0" -> IF Num(b) THEN [s EXCEPT !.st = "min", !.min = b - 48] ELSE Err(s)
    [] s.st = "min" -> IF b = 13 THEN To(s, "verLF") ELSE IF b = 10 THEN Line(s)
                       ELSE IF Num(b) /\ s.min * 10 + b - 48 <= 999 THEN [s EXCEPT !.min = @ * 10 + b - 48] ELSE Err(s)
    [] s.st \in {"verLF", "lineLF"} -> IF b = 10 THEN Line(s) ELSE Err(s)
    [] s.st = "field0" -> Field0(s, b)
    [] s.st = "field" ->
         IF TokenByte(b) THEN Add(s, b)
         ELSE CASE b = 58 -> To(Field(s), "value0")
                [] b = 13 -> To(Field(s), "valueLF")
                [] b = 10 -> To(Field(s), "field0")
                [] OTHER -> Err(s)
    [] s.st = "value0" ->
         CASE b \in {9, 32} -> s
           [] b = 13 -> [Value(s) EXCEPT !.st = "valueLF", !.hs = ""]
           [] b = 10 -> To(Value(s), "field0")
           [] OTHER -> LET n == To(Add(s, b), "value") IN
                       IF s.hs # "length" THEN n ELSE IF Num(b) THEN [n EXCEPT !.cl = b - 48] ELSE Err(s)
    [] s.st = "value" ->
         CASE b = 13 -> To(Means(s), "valueLF")
           [] b = 10 -> To(Means(s), "fold")
           [] OTHER -> LET n == Add(s, b) IN IF s.hs = "length" THEN Length(n, b) ELSE n
    [] s.st = "valueLF" -> To(s, "fold")
    [] s.st = "fold" -> IF b \in {9, 32} THEN To(s, "value0") ELSE Field0(s, b)
    [] s.st = "endLF" -> Headers(s)
    [] s.st = "body" -> LET n == [EmitBody(s, b) EXCEPT !.left = @ - 1] IN IF n.left = 0 THEN Done(n) ELSE n
    [] s.st = "csize0" -> IF Hex(b) = -1 THEN Err(s) ELSE [s EXCEPT !.st = "csize", !.left = Hex(b)]
    [] s.st = "csize" -> CASE b = 13 -> To(s, "csizeLF")
                           [] b \in {32, 59} -> To(s, "cext")
                           [] Hex(b) /= -1 -> IF s.left > (MaxInt - Hex(b)) \div 16 THEN Err(s) ELSE [s EXCEPT !.left = @ * 16 + Hex(b)]
                           [] OTHER -> Err(s)
    [] s.st = "cext" -> IF b = 13 THEN To(s, "csizeLF") ELSE s
    [] s.st = "csizeLF" -> IF s.left = 0 THEN [s EXCEPT !.st = "field0", !.trail = TRUE] ELSE To(s, "cdata")
    [] s.st = "cdata" -> LET n == [EmitBody(s, b) EXCEPT !.left = @ - 1] IN IF n.left = 0 THEN To(n, "cdataCR") ELSE n
    [] s.st = "cdataCR" -> To(s, "cdataLF")
    [] s.st = "cdataLF" -> To(s, "csize0")
    [] OTHER -> s
Stopped(s) == s.st \in {"done", "error"}
(* a call with bytes d from state s: where it stops and the events in it *)
Feed(s, d) == FoldLeft(LAMBDA a, b : IF Stopped(a.s) THEN a ELSE [s |-> Byte(a.s, b), n |-> a.n + 1], [s |-> [s EXCEPT !.ev = <<>>], n |-> 0], d)
=============================================================================
