------------------------------ MODULE TableTrace ------------------------------
(* C19: records [cmd, res : [spellings, documented, accepted]], the spellings*)
(* found in the table of the code, those the command documents, and whether  *)
(* the command accepts them, and with an argument; the latter two empty if   *)
(* the command is not installed.                                             *)
EXTENDS Text, Tables, Parser, Judge

\* accepted, but not documented any more
Historic == [grep |-> {"-u", "--unix-byte-offsets", "-y"}, cat |-> {"-vE", "-vT"}]
Known(c) == IF c \in DOMAIN Table THEN DOMAIN FlagCanon(c) \cup DOMAIN OptCanon(c) ELSE {}
Missing(r) == Known(r.cmd) \ RangeOf(r.res.spellings)
Extra(r) == RangeOf(r.res.spellings) \ Known(r.cmd)
Repeated(r) == { s \in RangeOf(r.res.spellings) : Cardinality({ k \in 1..Len(r.res.spellings) : r.res.spellings[k] = s }) > 1 }
Undocumented(r) == IF r.res.documented = <<>> THEN {}
                   ELSE (Known(r.cmd) \ RangeOf(r.res.documented)) \ (IF r.cmd \in DOMAIN Historic THEN Historic[r.cmd] ELSE {})
Unlisted(r) == RangeOf(r.res.documented) \ Known(r.cmd)
Kind(c, s) == IF IsFlag(c, s) THEN "F" ELSE IF IsOption(c, s) THEN "O" ELSE "?"
OtherKind(r) == { r.res.accepted[k] : k \in { j \in 1..Len(r.res.accepted) : r.res.accepted[j][2] # Kind(r.cmd, r.res.accepted[j][1]) } }
Named(S, name) == IF S = {} THEN {} ELSE {name \o ": " \o ToString(S)}
Check == l <= N => LET r == Records[l] IN Report(r,
             Named(Missing(r), "missing") \cup Named(Extra(r), "not of the command") \cup Named(Repeated(r), "repeated")
             \cup Named(Undocumented(r), "not documented") \cup Named(Unlisted(r), "documented but not listed")
             \cup Named(OtherKind(r), "the command takes it otherwise"), "")
=============================================================================
