----------------------------- MODULE IOVarsTrace -----------------------------
(* C12, C13, C14: every step of a recorded history is the step specified.    *)
(* A record has                                                              *)
(*   kind "hand": init, ds, ops; res : [init, steps]                         *)
(*   kind "real": line; res : [some, init, plans], a history per plan, all   *)
(*                starting from the annotated invocation                     *)
(* A step is [ok, ret, args, plans, changed], where changed has the numbers  *)
(* of the invocations which are new or changed, with what they are now.      *)
EXTENDS IOVars, Judge
If(b, name) == IF b THEN {name} ELSE {}

In(inv) == [inv EXCEPT !.acc = RangeOf(@)]
Edit(o) == o.op \in {"substin", "substout", "substboth", "replace", "removein", "removeout"}
\* which operations a property is about
Mine(o) == CASE Prop = "C12" -> o.op = "map" [] Prop = "C13" -> o.op \in {"agg", "agg2"} [] OTHER -> TRUE

\* what the code has after a step
After(have, g) == LET at(k) == { i \in 1..Len(g.changed) : g.changed[i][1] = k }
                      most == CHOOSE m \in {Len(have)} \cup { g.changed[i][1] : i \in 1..Len(g.changed) } :
                                \A i \in 1..Len(g.changed) : g.changed[i][1] <= m /\ Len(have) <= m
                  IN  [k \in 1..most |-> IF at(k) = {} THEN have[k] ELSE In(g.changed[CHOOSE i \in at(k) : TRUE][2])]
\* access maps have no two entries for a stream
Doubled(g) == \E i \in 1..Len(g.changed) : Cardinality(RangeOf(g.changed[i][2].acc)) # Len(g.changed[i][2].acc)

RegClauses(regs, got, o) ==
    IF Len(regs) # Len(got) THEN {"number of invocations"}
    ELSE UNION { LET a == regs[k] b == got[k]
                     new == IF k = o.r THEN "" ELSE IF k = Len(regs) THEN "new " ELSE "other "
                 IN  If(a.cmd # b.cmd, new \o "command") \cup If(a.fos # b.fos, new \o "flags") \cup If(a.ops # b.ops, new \o "operands")
                     \cup If(a.si # b.si, new \o "implicit input") \cup If(a.so # b.so, new \o "implicit output")
                     \cup If(a.acc # b.acc, new \o "accesses")
                 : k \in 1..Len(regs) }

StepClauses(s, o, g, got) ==
    If(Doubled(g), "accesses") \cup If(~g.args, "arguments changed") \cup If(~g.plans, "plans changed")
    \cup (IF g.ok # s.ok THEN {IF s.ok THEN "accepted" ELSE "refused"}
          ELSE IF ~s.ok THEN IF Edit(o) THEN RegClauses([s.regs EXCEPT ![o.r] = got[o.r]], got, o)
                             ELSE RegClauses(s.regs, got, o)
          ELSE If(g.ret # s.ret /\ ~(o.op = "select" /\ g.ret = <<"absent">>), "result") \cup RegClauses(s.regs, got, o))

\* the first step that is not as specified; have: what the code has before step k
RECURSIVE Go(_, _, _, _, _)
Go(k, have, ds, ops, steps) ==
    IF k > Len(ops) THEN [bad |-> {}, at |-> 0, want |-> <<>>]
    ELSE LET s == Step(have, ds, ops[k])
             got == After(have, steps[k])
             bad == StepClauses(s, ops[k], steps[k], got)
         IN  IF bad # {} /\ Mine(ops[k]) THEN [bad |-> {ops[k].op \o ": " \o b : b \in bad}, at |-> k, want |-> s.regs]
             ELSE Go(k + 1, got, ds, ops, steps)

Good == [bad |-> {}, at |-> 0, want |-> <<>>]
RECURSIVE Plans(_, _, _)
Plans(r, data, k) ==
    IF k > Len(data) THEN Good
    ELSE LET g == Go(1, <<In(r.res.init)>>, <<data[k]>>, r.res.plans[k].ops, r.res.plans[k].steps)
         IN  IF g.bad # {} THEN g ELSE Plans(r, data, k + 1)

Verdict(r) ==
    IF r.kind = "hand"
    THEN IF In(r.res.init) # In(r.init) THEN [bad |-> {"initial"}, at |-> 0, want |-> <<In(r.init)>>]
         ELSE IF ~Consistent(In(r.init)) THEN [bad |-> {"case"}, at |-> 0, want |-> <<>>]
         ELSE Go(1, <<In(r.init)>>, r.ds, r.ops, r.res.steps)
    ELSE LET e == ParseLine(r.line)
         IN  IF ~e.ok \/ ~r.res.some THEN Good
             ELSE LET info == Info(e.inv)
                      p == Inferred(StoredPlans(e.inv))
                      \* where roles or plans are not those specified, C04-C06 and C10 tell
                  IN  IF ~info.some \/ Len(p) # Len(r.res.plans) \/ In(r.res.init) # WithVars(e.inv.cmd, info) THEN Good
                      ELSE Plans(r, [k \in 1..Len(p) |-> DataOf(e.inv.cmd, p[k])], 1)

Check == l <= N => LET r == Records[l] v == Verdict(r)
                   IN  Report(r, v.bad, IF v.bad = {} THEN "" ELSE ToJson([step |-> v.at, want |-> v.want]))
=============================================================================
