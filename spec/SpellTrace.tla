----------------------------- MODULE SpellTrace -----------------------------
(* C03: lines with the same meaning get the same answers.                    *)
EXTENDS Text, Parser, Judge
If(b, name) == IF b THEN {name} ELSE {}
Clauses(r) ==
    LET a == r.res.res[1]
        Differ(f(_)) == \E i \in 2..Len(r.res.res) : f(r.res.res[i]) # f(a)
        Ok(x) == x.ok
        Invocation(x) == x.inv
        Information(x) == x.io
        Plans(x) == x.para
        Raised(x) == x.raised
    IN  If(Differ(Ok), "accepted") \cup If(Differ(Invocation), "invocation") \cup If(Differ(Information), "information")
        \cup If(Differ(Plans), "plans") \cup If(Differ(Raised), "raised") \cup If(~r.res.eq, "equal")
\* lines are only put into one record if the specification gives them one meaning
Sane(r) == \A i \in 1..Len(r.lines) : ParseLine(r.lines[i]) = ParseLine(r.lines[1])
Check == l <= N => LET r == Records[l]
                   IN  /\ Assert(Sane(r), r.lines)
                       /\ Report(r, Clauses(r), "equal answers")
=============================================================================
