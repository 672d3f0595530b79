----------------------------- MODULE FactsTrace -----------------------------
(* C22: values answer what they are.  Records [c, res, again, kept] of calls *)
(* with the answer, the answer to the same call after the first answer has   *)
(* been overwritten, and whether the arguments were left as they were.       *)
EXTENDS Text, Judge
F == INSTANCE Facts

Check == l <= N => LET r == Records[l]
                       m == F!Meaning(r.c)
                       bad == (IF ~F!Equal(r.res.answer, m) THEN {"answer"} ELSE {})
                              \cup (IF ~F!Equal(r.res.again, m) THEN {"again"} ELSE {})
                              \cup (IF r.res.kept # "T" THEN {"arguments"} ELSE {})
                   IN  Report(r, bad, m)
=============================================================================
