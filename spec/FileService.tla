---------------------------- MODULE FileService -----------------------------
(* What a request denotes: from the bytes of its target, through percent      *)
(* decoding, dot segments, locations, index files and credentials, to the     *)
(* file, directory, redirection or error it has to be answered with, and      *)
(* which responses are an answer to it. Paths are sequences of bytes.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Mime

SL == 47   \* slash
DOT == 46
Idx(s) == [i \in 1..Len(s) |-> i]
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSuf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
Elems(s) == {s[i] : i \in 1..Len(s)}
FirstPos(s, b) == LET ps == {i \in 1..Len(s) : s[i] = b} IN IF ps = {} THEN 0 ELSE CHOOSE i \in ps : \A j \in ps : i <= j
LastPos(s, b) == LET ps == {i \in 1..Len(s) : s[i] = b} IN IF ps = {} THEN 0 ELSE CHOOSE i \in ps : \A j \in ps : i >= j

(* ---- percent decoding: well-formed escapes only, in one pass; a plus sign is a space ---- *)
Hex(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE 0 - 1
Esc(s, i) == i >= 1 /\ i + 2 <= Len(s) /\ s[i] = 37 /\ Hex(s[i + 1]) >= 0 /\ Hex(s[i + 2]) >= 0
Decode(s) ==
  LET keep == SelectSeq(Idx(s), LAMBDA i : ~Esc(s, i - 1) /\ ~Esc(s, i - 2))
  IN [k \in 1..Len(keep) |-> IF Esc(s, keep[k]) THEN 16 * Hex(s[keep[k] + 1]) + Hex(s[keep[k] + 2])
                            ELSE IF s[keep[k]] = 43 THEN 32 ELSE s[keep[k]]]

(* ---- segments of an absolute path and their lexical resolution ---- *)
Segs(p) == LET cut == SelectSeq(Idx(p), LAMBDA i : p[i] = SL)
           IN [k \in 1..Len(cut) |-> SubSeq(p, cut[k] + 1, IF k = Len(cut) THEN Len(p) ELSE cut[k + 1] - 1)]
RECURSIVE Join(_)
Join(segs) == IF segs = <<>> THEN <<>> ELSE <<SL>> \o Head(segs) \o Join(Tail(segs))
Resolve(segs) ==
  FoldLeft(LAMBDA a, x :
      CASE x = <<>> \/ x = <<DOT>> -> a
        [] x = <<DOT, DOT>> -> IF a.st = <<>> THEN [a EXCEPT !.out = TRUE]
                               ELSE [a EXCEPT !.st = SubSeq(@, 1, Len(@) - 1), !.via = @ \cup {Join(a.st)}]
        [] OTHER -> [a EXCEPT !.st = Append(@, x)],
    [st |-> <<>>, out |-> FALSE, via |-> {}], segs)

(* ---- the document tree: look(p) is the entry at a path relative to the site ---- *)
None == [t |-> "x"]
Strip(p) == IF Len(p) > 0 /\ p[Len(p)] = SL THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Www == <<119, 119, 119>>

(* ---- locations: literal patterns over the normal form of the path, in which ---- *)
(* ---- only the bytes that cannot stand for themselves are escaped            ---- *)
Plain == 48..57 \cup 65..90 \cup 97..122 \cup {45, 95, 46, 126, 47, 33, 36, 38, 39, 40, 41, 42, 44, 59, 61, 58, 64}
Digit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Canon(p) == FlattenSeq([i \in 1..Len(p) |-> IF p[i] \in Plain THEN <<p[i]>> ELSE <<37, Digit(p[i] \div 16), Digit(p[i] % 16)>>])
HasSub(pat, p) == \E i \in 1..(Len(p) - Len(pat) + 1) : SubSeq(p, i, i + Len(pat) - 1) = pat
Matches(loc, p) ==
  CASE loc.kind = "prefix" -> IsPre(loc.pat, p)
    [] loc.kind = "exact" -> loc.pat = p
    [] loc.kind = "suffix" -> IsSuf(loc.pat, p)
    [] loc.kind = "contains" -> HasSub(loc.pat, p)
    [] loc.kind = "any" -> TRUE
MatchEnd(loc, p) ==
  CASE loc.kind = "prefix" -> Len(loc.pat)
    [] loc.kind = "any" -> 0
    [] loc.kind \in {"exact", "suffix"} -> Len(p)
    [] loc.kind = "contains" -> Len(loc.pat) - 1 + (CHOOSE i \in 1..(Len(p) - Len(loc.pat) + 1) :
          /\ SubSeq(p, i, i + Len(loc.pat) - 1) = loc.pat
          /\ \A j \in 1..(i - 1) : SubSeq(p, j, j + Len(loc.pat) - 1) # loc.pat)
Loc(site, p) ==
  LET ms == {i \in 1..Len(site.locs) : Matches(site.locs[i], Canon(p))}
  IN IF ms = {} THEN 0 ELSE CHOOSE i \in ms : \A j \in ms : i <= j
HandlerOf(site, l) == IF l = 0 THEN "file" ELSE site.locs[l].h

(* the place a path names: under www, or mapped by the location's base path; *)
(* <<>> when the location's base path and the rest of the path do not join at a slash *)
Phys(site, l, p) ==
  IF l = 0 THEN Www \o p
  ELSE LET loc == site.locs[l] IN
    IF ~loc.hasbase THEN Www \o p
    ELSE LET cp == Canon(p)
             e == MatchEnd(loc, cp)
             off == IF e > 0 /\ cp[e] = SL THEN e - 1 ELSE e
             rest == Decode(SubSeq(cp, off + 1, Len(cp)))
             base == loc.base
         IN IF rest = <<>> THEN base
            ELSE IF IsSuf(<<SL>>, base) THEN Strip(base) \o (IF rest[1] = SL THEN rest ELSE <<SL>> \o rest)
            ELSE IF rest[1] = SL THEN base \o rest ELSE <<>>

(* ---- credentials ---- *)
(* the entries of the password file as it is now: it may have been changed or *)
(* removed since the server was started                                      *)
Users(site, look(_), l) ==
  LET loc == site.locs[l] ent == IF loc.pw = <<>> THEN None ELSE look(loc.pw) IN
  IF "us" \in DOMAIN ent THEN ent.us ELSE IF loc.pw # <<>> /\ ent.t # "f" THEN <<>> ELSE loc.users
CredOK(site, look(_), l, r) ==
  LET us == Users(site, look, l) IN
  r.au.k \in {"basic", "either"} /\ \E i \in 1..Len(us) : us[i][1] = r.au.u /\ us[i][2] = r.au.p

(* ---- what path p (absolute, normal form) has to be answered with ---- *)
FileAt(site, look(_), l, p, r) ==
  IF l # 0 /\ site.locs[l].auth /\ ~CredOK(site, look, l, r) THEN [k |-> "auth"]
  ELSE LET ph == Phys(site, l, p)
           ent == IF ph = <<>> THEN None ELSE look(Strip(ph))
           tr == IsSuf(<<SL>>, p)
       IN CASE ent.t = "f" /\ ~tr -> [k |-> "file", p |-> Strip(ph), ent |-> ent]
            [] ent.t = "d" /\ tr -> [k |-> "dir", p |-> Strip(ph)]
            [] ent.t = "d" /\ ~tr -> [k |-> "redir", n |-> p]
            [] OTHER -> [k |-> "none"]
At(site, look(_), l, p, r) == IF HandlerOf(site, l) = "file" THEN FileAt(site, look, l, p, r) ELSE [k |-> HandlerOf(site, l)]
Dispatch(site, look(_), p, r) ==
  LET l1 == Loc(site, p)
      ph == Phys(site, l1, p)
      found == {i \in 1..Len(site.index) : ph # <<>> /\ look(Strip(ph)).t = "d" /\ look(Strip(ph) \o <<SL>> \o site.index[i]).t # "x"}
  IN IF HandlerOf(site, l1) # "file" \/ ~IsSuf(<<SL>>, p) \/ found = {} THEN At(site, look, l1, p, r)
     ELSE LET p2 == p \o site.index[CHOOSE i \in found : \A j \in found : i <= j]
              l2 == Loc(site, p2)
          IN At(site, look, IF l2 = 0 THEN l1 ELSE l2, p2, r)
Route(site, look(_), p, r) ==
  CASE site.handler = "dispatch" -> Dispatch(site, look, p, r)
    [] site.handler = "file" -> FileAt(site, look, 0, p, r)
    [] OTHER -> [k |-> site.handler]

(* longer paths may be unknown to the server, whose own limit includes the place of the site *)
MaxPath == 900
PathOf(u) == LET q == FirstPos(u, 63) IN IF q = 0 THEN u ELSE SubSeq(u, 1, q - 1)
(* the set of things a request may be answered with: a singleton but where the *)
(* order of resolving dot segments and links to missing places is not determined *)
Denotes(site, look(_), r) ==
  IF site.handler \notin {"dispatch", "file"} THEN {[k |-> site.handler]}
  ELSE LET raw == PathOf(r.u) dec == Decode(raw) IN
    IF raw = <<>> \/ raw[1] # SL THEN {[k |-> "outside"]}
    ELSE LET segs == Segs(dec)
             res == Resolve(segs)
             last == segs[Len(segs)]
             base == Join(res.st)
             dotted == raw[Len(raw)] # SL /\ last \in {<<>>, <<DOT>>, <<DOT, DOT>>}
             slashed == Route(site, look, base \o <<SL>>, r)
             xs == IF ~dotted THEN {IF raw[Len(raw)] = SL THEN slashed ELSE Route(site, look, base, r)}
                   (* named by dots or an escaped slash: as the directory, or redirected to it *)
                   ELSE {slashed} \cup (IF base # <<>> THEN {Route(site, look, base, r)} ELSE {})
                                 \cup (IF slashed.k \in {"dir", "file"} THEN {[k |-> "redir", n |-> base]} ELSE {})
         IN IF res.out THEN {[k |-> "outside"]}
            (* no name has a NUL byte: such a path may be resolved first, or refused *)
            ELSE IF 0 \in Elems(dec) THEN {[k |-> "outside"]} \cup xs
            ELSE IF r.au.k = "either" /\ \E i \in 1..Len(site.locs) : site.locs[i].auth
                 THEN {[k |-> "auth"]} \cup xs
            ELSE xs \cup (IF (Len(raw) > MaxPath \/ \E v \in res.via : look(Www \o v).t # "d") /\ \E x \in xs : x.k \in {"file", "dir", "redir"}
                             THEN {[k |-> "none"]} ELSE {})

(* ---- ranges ---- *)
Big == 1000000000
RECURSIVE Num(_, _)
Num(s, a) == IF s = <<>> THEN a ELSE Num(Tail(s), IF a >= 100000000 THEN Big ELSE a * 10 + (Head(s) - 48))
Digits(s) == \A i \in 1..Len(s) : s[i] \in 48..57
LowerB(b) == IF b \in 65..90 THEN b + 32 ELSE b
Lower(s) == [i \in 1..Len(s) |-> LowerB(s[i])]
BytesUnit == <<98, 121, 116, 101, 115, 61>>
(* "none" when the value is no single byte range, "bad" when none of the file's bytes is in it *)
RangeOf(v, n) ==
  LET d == SubSeq(v, 7, Len(v))
      m == FirstPos(d, 45)
      a == SubSeq(d, 1, m - 1) b == SubSeq(d, m + 1, Len(d))
      av == Num(a, 0) bv == Num(b, 0)
  IN IF Len(v) < 6 \/ Lower(SubSeq(v, 1, 6)) # BytesUnit \/ m = 0 THEN [k |-> "none"]
     ELSE IF ~Digits(a) \/ ~Digits(b) \/ (a = <<>> /\ b = <<>>) \/ (a # <<>> /\ b # <<>> /\ av > bv) THEN [k |-> "none"]
     ELSE IF a = <<>> THEN IF bv = 0 \/ n = 0 THEN [k |-> "bad"] ELSE [k |-> "ok", a |-> IF bv >= n THEN 0 ELSE n - bv, b |-> n - 1]
     ELSE IF av >= n THEN [k |-> "bad"]
     ELSE [k |-> "ok", a |-> av, b |-> IF b = <<>> \/ bv >= n THEN n - 1 ELSE bv]

(* ---- media type of a file ---- *)
TypeOf(p) ==
  LET nm == SubSeq(p, LastPos(p, SL) + 1, Len(p))
      ext == IF LastPos(nm, DOT) = 0 THEN <<>> ELSE Lower(SubSeq(nm, LastPos(nm, DOT), Len(nm)))
  IN IF ext \in MimeExts THEN MimeMap[ext] ELSE ""

(* ---- directory listing ---- *)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Dots == {<<DOT>>, <<DOT, DOT>>}
ListsAs(ls, kids) ==
  /\ \A i \in 1..Len(ls) : <<ls[i].n, ls[i].t>> \in kids \/ (ls[i].n \in Dots /\ ls[i].t = "d")
  /\ \A k \in kids : \E i \in 1..Len(ls) : ls[i].n = k[1] /\ ls[i].t = k[2]
  /\ \A i \in 1..(Len(ls) - 1) :
        IF ls[i].t = ls[i + 1].t THEN Less(ls[i].n, ls[i + 1].n) ELSE ls[i].t = "d" /\ ls[i + 1].t = "f"

(* ---- is response e an answer to request r denoting x? ---- *)
Fld(e, f) == f \in DOMAIN e
BodyAt(e, cid, off) == \E i \in 1..Len(e.b) : e.b[i][1] = cid /\ e.b[i][2] = off
ErrorPage(e, st) == e.st = st /\ st \in Elems(e.err) /\ e.leak = <<>>
NotModified(e) == e.st = 304 /\ e.len = 0
Whole(e, x) ==
  /\ e.st = 200 /\ e.len = x.ent.n /\ (x.ent.n = 0 \/ BodyAt(e, x.ent.cid, 0))
  /\ e.ct = TypeOf(x.p) /\ e.ar /\ e.et # "" /\ e.cr = <<>>
Part(e, x, g) ==
  /\ e.st = 206 /\ e.cr = <<g.a, g.b, x.ent.n>> /\ e.len = g.b - g.a + 1 /\ BodyAt(e, x.ent.cid, g.a)
NoPart(e, x) == e.st = 416 /\ e.len = 0 /\ e.cr = <<0 - 1, 0 - 1, x.ent.n>>
FileAnswer(e, r, x, matched) ==
  LET g == IF Fld(r, "rg") THEN RangeOf(r.rg, x.ent.n) ELSE [k |-> "none"] IN
  IF matched THEN NotModified(e)
  ELSE (* a value of absurd length may be ignored *)
       \/ Fld(r, "rg") /\ Len(r.rg) > 120 /\ Whole(e, x)
       \/ CASE g.k = "ok" -> Part(e, x, g)
            [] g.k = "bad" -> NoPart(e, x)
            [] OTHER -> Whole(e, x)
RedirectAnswer(e, x) ==
  /\ e.st = 307 /\ e.len = 0 /\ e.loc # <<>> /\ e.loc[1] = SL /\ e.loc[Len(e.loc)] = SL
  /\ LET res == Resolve(Segs(Decode(e.loc))) IN ~res.out /\ Join(res.st) = x.n
OutsideAnswer(site, e) ==
  \/ ErrorPage(e, 404)
  \/ e.st = 401 /\ e.wa /\ e.leak = <<>>
  \/ e.st = 200 /\ e.hello /\ \E i \in 1..Len(site.locs) : site.locs[i].h = "default"
=============================================================================
