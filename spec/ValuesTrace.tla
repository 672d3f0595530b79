----------------------------- MODULE ValuesTrace -----------------------------
(* C20: values are equal exactly if they have the same kind and equal parts. *)
(* Records [x, y, res] of pairs of values, or [lines, res] of the answers    *)
(* for two command lines.                                                    *)
EXTENDS Text, Tables, Parser, IOInfo, Para, Judge
V == INSTANCE Values

YesNo(b) == IF b THEN "T" ELSE "F"
\* res: what comparing two values says, which are equal or not
Wrong(res, equal) ==
    { f \in {"eq", "qe", "in", "cross"} : res[f] # YesNo(equal) }
    \cup (IF res.ne # YesNo(~equal) THEN {"ne"} ELSE {})
    \cup { f \in {"self", "copy", "kept"} : res[f] # "T" }

Prefixed(p, S) == { p \o " " \o s : s \in S }
OfLines(r) ==
    LET a == ParseLine(r.lines[1]).inv
        b == ParseLine(r.lines[2]).inv
        ia == Info(a)
        ib == Info(b)
        pa == Inferred(StoredPlans(a))
        pb == Inferred(StoredPlans(b))
    IN  UNION { Prefixed("invocations:", Wrong(r.res.inv[k], a = b)) : k \in 1..Len(r.res.inv) }
        \cup UNION { Prefixed("annotated:", Wrong(r.res.applied[k], a.cmd = b.cmd /\ ia = ib)) : k \in 1..Len(r.res.applied) }
        \cup (IF r.res.applied # <<>> /\ ~(ia.some /\ ib.some) THEN {"information"} ELSE {})
        \cup (IF r.res.plans # <<>> /\ Len(r.res.plans) # Len(pa) THEN {"plans"}
              ELSE UNION { UNION { Prefixed("plans:", Wrong(r.res.plans[i][j], pa[i] = pb[j])) : j \in 1..Len(pb) } : i \in 1..Len(r.res.plans) })

Check == l <= N => LET r == Records[l]
                       lines == "lines" \in DOMAIN r
                       bad == IF lines THEN OfLines(r) ELSE Wrong(r.res, V!Equal(r.x, r.y))
                   IN  Report(r, bad, IF lines THEN "" ELSE V!Equal(r.x, r.y))
=============================================================================
