----------------------------- MODULE RulesTrace -----------------------------
(* C21: what a rule for a new command answers is what its calls say.         *)
EXTENDS Rules, Judge

\* the conditions of the generators' interface, asked by themselves
Asked == {"-a", "-T", "--all", "b", "long", "--lon", "-", "n"}
Steps(r) == [k \in 1..Len(r.steps) |-> [r.steps[k] EXCEPT !.names = RangeOf(@)]]
Roles1(r) ==
    LET info == RuleInfo(r.inv, Steps(r))
        res == r.res
        f(b, n) == IF b THEN {n} ELSE {}
    IN  f(res.parsed # r.inv /\ Known(r.inv), "parsed")
        \cup IF ~info.some THEN f(res.some, "refused")
             ELSE IF ~res.some THEN {"raised"}
             ELSE f(res.io.cmd # r.inv.cmd, "command") \cup f(res.io.fos # info.fos, "options") \cup f(res.io.ops # info.ops, "operands")
                  \cup f(res.io.si # info.si, "stdin") \cup f(res.io.so # info.so, "stdout") \cup f(res.io.other # info.other, "other outputs")
                  \cup f(~AppliesTo(res.io, r.inv), "applied") \cup f(res.again # res.io, "applied by the generator")
                  \cup { k \in DOMAIN Lists(info) : res.lists[k] # Lists(info)[k] }
                  \cup f(res.length # Len(r.inv.ops), "number of operands")
                  \cup f(res.filtered # Filtered(r.inv, Asked), "filtered") \cup f(res.has # (Filtered(r.inv, Asked) # <<>>), "condition")
                  \cup f(~res.unchanged, "unchanged")
Plans1(r) ==
    LET p == RulePlans(r.steps)
        f(b, n) == IF b THEN {n} ELSE {}
    IN  IF ~p.some THEN f(r.res.some, "refused")
        ELSE IF ~r.res.some THEN {"raised"}
        ELSE f(r.res.para.plans # p.plans, "plans") \cup f(r.res.para.comm # p.comm, "commutative") \cup f(r.res.para.inferred # Inferred(p), "inferred plans")
             \cup f(~r.res.para.stable, "stable") \cup f(r.res.implemented # [k \in 1..Len(p.plans) |-> Implemented(p.plans[k])], "implemented")
             \cup f(r.res.rrcat, "round robin with cat")
Check == l <= N => LET r == Records[l]
                       bad == IF r.kind = "plans" THEN Plans1(r) ELSE Roles1(r)
                   IN  Report(r, bad, IF bad = {} THEN "" ELSE IF r.kind = "plans" THEN ToJson(RulePlans(r.steps)) ELSE ToJson(RuleInfo(r.inv, Steps(r))))
=============================================================================
