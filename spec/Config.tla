------------------------------- MODULE Config --------------------------------
(* The options of the server and where their values come from: the command   *)
(* line, else the [general] section of the configuration file, else the      *)
(* documented default. Sources are functions from the options they set.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Default == [port |-> "9090", host |-> "0.0.0.0", ip6 |-> "0", ip6_host |-> "[::]", handler |-> "dispatch", use_template |-> "0", index |-> ""]
Options == DOMAIN Default
\* the options the command line knows; --ip6 is a flag
CliOptions == {"port", "host", "ip6", "handler"}
Effective(cli, file) == [o \in Options |-> IF o \in CliOptions /\ o \in DOMAIN cli THEN IF o = "ip6" THEN "1" ELSE cli[o]
                                           ELSE IF o \in DOMAIN file THEN file[o] ELSE Default[o]]
True(v) == v \in {"On", "True", "1"}
\* an address of the sixth version is written in brackets
Bare(a) == CASE a = "[::]" -> "::" [] a = "[::1]" -> "::1" [] a = "[fd00::17]" -> "fd00::17"
\* the sockets that listen: family, address, port
Listeners(e) == {<<"4", e.host, e.port>>} \cup (IF True(e.ip6) THEN {<<"6", Bare(e.ip6_host), e.port>>} ELSE {})
\* what answers a request inside a location of the dispatch handler served from elsewhere
Answerer(e) == IF e.handler = "dispatch" THEN "location" ELSE e.handler
\* the index file shown for a directory holding i1, i2 and i3, by a handler that serves files
Words(s) == CASE s = "" -> <<>> [] s = "i1.html" -> <<1>> [] s = "i2.html i1.html" -> <<2, 1>> [] s = "nope.html i3.html i2.html" -> <<0, 3, 2>> [] s = "nope.html" -> <<0>>
First(s) == LET w == Words(s) p == {k \in 1..Len(w) : w[k] # 0} IN IF p = {} THEN 0 ELSE w[CHOOSE k \in p : \A j \in p : k <= j]
Index(e) == IF e.handler # "dispatch" THEN "any" ELSE ToString(First(e.index))
=============================================================================
