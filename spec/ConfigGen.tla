----------------------------- MODULE ConfigGen -------------------------------
(* every subset of the options over the two sources; one source setting more *)
(* per step. TLC also checks that the effective value is what was set last   *)
(* in the order defaults, file, command line.                                 *)
EXTENDS Config, Json
CONSTANT Deep
VARIABLES cli, file
vars == <<cli, file>>
FileVals == [port |-> {"8081", "80"}, host |-> {"127.0.0.1", "10.1.2.3"}, ip6 |-> IF Deep THEN {"1", "0", "True", "Off"} ELSE {"1", "0"}, ip6_host |-> {"[::1]"} \cup (IF Deep THEN {"[fd00::17]"} ELSE {}),
             handler |-> {"file", "default"} \cup (IF Deep THEN {"lua", "dispatch"} ELSE {"dispatch"}), use_template |-> IF Deep THEN {"1", "0"} ELSE {"1"},
             index |-> IF Deep THEN {"i1.html", "i2.html i1.html", "nope.html i3.html i2.html", "nope.html"} ELSE {"i2.html i1.html", "nope.html i3.html i2.html"}]
CliVals == [port |-> {"8082", "443"}, host |-> {"127.0.0.9"}, ip6 |-> {""}, handler |-> {"file", "dispatch"} \cup (IF Deep THEN {"lua", "default"} ELSE {})]
None == [x \in {} |-> ""]
With(f, o, v) == [x \in DOMAIN f \cup {o} |-> IF x = o THEN v ELSE f[x]]
Init == cli = None /\ file = None
SetFile == \E o \in DOMAIN FileVals \ DOMAIN file : \E v \in FileVals[o] : file' = With(file, o, v) /\ UNCHANGED cli
SetCli == \E o \in DOMAIN CliVals \ DOMAIN cli : \E v \in CliVals[o] : cli' = With(cli, o, v) /\ UNCHANGED file
Next == SetFile \/ SetCli
Spec == Init /\ [][Next]_vars
\* setting an option somewhere changes that option's effective value only, and not at all below a source that sets it too
Local == [][\A o \in Options : (o \notin (DOMAIN cli' \ DOMAIN cli) \cup (DOMAIN file' \ DOMAIN file)) => Effective(cli', file')[o] = Effective(cli, file)[o]]_vars
Above == [][\A o \in CliOptions : o \in DOMAIN cli => Effective(cli', file')[o] = Effective(cli, file)[o]]_vars
Total == \A o \in Options : o \notin DOMAIN cli /\ o \notin DOMAIN file => Effective(cli, file)[o] = Default[o]
Emit == PrintT(<<"GEN", ToJson([cli |-> cli, file |-> file])>>)
=============================================================================
