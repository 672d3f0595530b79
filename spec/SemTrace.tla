------------------------------ MODULE SemTrace ------------------------------
(* Compares the meaning of commands with what the installed ones print:      *)
(* records [line, runs], runs a sequence of <<text, output>>.                *)
EXTENDS Commands, Judge

Spec(r, s) == LET inv == Named(ParseLine(r.line).inv)
                  id == Read(inv)[1]
              IN  RunOn(inv, (id :> s), (id :> IF inv.si = id THEN "(standard input)" ELSE "f4"))
Differences(r) == { k \in 1..Len(r.runs) : Spec(r, r.runs[k][1]) # r.runs[k][2] }
Check == l <= N => LET r == Records[l]
                       d == IF Random(ParseLine(r.line).inv) THEN {} ELSE Differences(r)
                   IN  IF d = {} THEN TRUE
                       ELSE LET k == CHOOSE k \in d : \A j \in d : k <= j
                            IN  Report(r, {"output"}, ToJson(<<r.runs[k], Spec(r, r.runs[k][1])>>))
=============================================================================
