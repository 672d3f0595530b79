------------------------------- MODULE CliTrace -------------------------------
(* C17: replayed runs end as the specification allows, nothing else was      *)
(* changed, and every report is complete and says what the library says.     *)
EXTENDS Cli, Judge

If(b, name) == IF b THEN {name} ELSE {}
RECURSIVE Performed(_, _)
Performed(acts, done) == IF acts = <<>> THEN <<>>
                         ELSE (IF Head(done) THEN <<Head(acts)>> ELSE <<>>) \o Performed(Tail(acts), Tail(done))
Parsed(x) == ParseLine(x).ok
Possible(r) ==
    LET as == Performed(r.acts, r.res.done)
    IN  Ends([kind |-> r.init, own |-> "init", limited |-> r.limited], [k \in 1..Len(as) |-> as[k].act],
             Cardinality({ k \in 1..Len(as) : as[k].at = 0 }), r.form # "nowhere", Parsed(r.line), Parsed(r.line2))
Shown(line, out, rep, lib) == out \in {"stored", "printed"} => rep = Report4(ParseLine(line).inv, lib)
Clauses(r) ==
    LET e == r.res
        ok == Parsed(r.line)
    IN  If([kind |-> e.kind, own |-> e.own, out1 |-> e.out1, out2 |-> e.out2] \notin Possible(r), "outcome")
        \cup If(e.elsewhere # <<>>, "other files")
        \cup (IF ~ok \/ e.out1 = "lost" THEN {}
              ELSE If(~Shown(r.line, e.out1, e.rep1, e.lib1), "report")
                   \cup If(\E k \in 2..4 : e.found[1][k] # Len(Tokens(r.line)[k]), "content")
                   \cup If(e.status[1] # 0, "status"))
        \cup (IF e.out2 \in {"none", "lost"} \/ ~Parsed(r.line2) THEN {} ELSE If(~Shown(r.line2, e.out2, e.rep2, e.lib2), "other report"))
Check == l <= N => LET r == Records[l] bad == Clauses(r)
                   IN  Report(r, bad, IF bad = {} THEN "" ELSE ToJson([possible |-> Possible(r), found |-> r.res.found,
                                       got |-> <<r.res.kind, r.res.own, r.res.out1, r.res.out2>>, elsewhere |-> r.res.elsewhere]))
=============================================================================
