----------------------------- MODULE TransTrace -----------------------------
(* C15: the code transforms as specified, twice, and changes no argument.    *)
EXTENDS Transformers, Judge
If(b, name) == IF b THEN {name} ELSE {}
Clauses(r) == LET e == Transform(r.t, r.fos)
              IN  If(r.res.first # e, "result") \cup If(r.res.second # e, "second application")
                  \cup If(r.res.after # r.fos, "list passed in changed") \cup If(r.res.t # r.t, "transformer changed")
                  \cup If(r.res.raised # "", "raised")
                  \cup If(r.res.onresult # Transform(r.t, e), "applied to its result")
Check == l <= N => LET r == Records[l] bad == Clauses(r) IN Report(r, bad, IF bad = {} THEN "" ELSE ToJson(Transform(r.t, r.fos)))
=============================================================================
