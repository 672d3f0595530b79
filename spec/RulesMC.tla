------------------------------- MODULE RulesMC -------------------------------
(* All short rules for small invocations of a new command.                   *)
EXTENDS Rules, Json

MaxFos == Number(IOEnv.MAXFOS)
MaxOps == Number(IOEnv.MAXOPS)
MaxSteps == Number(IOEnv.STEPS)
Part == IOEnv.PART
Planning == Part \in {"plans", "commutative"}

Entries == {<<"F", "-a">>, <<"F", "--long">>, <<"O", "-zz", "x">>} \cup { <<"O", o, "g">> : o \in DOMAIN NewOptions } \cup { <<"O", o, "-">> : o \in DOMAIN NewOptions }
FewEntries == {<<"F", "-a">>, <<"O", "-T", "-">>, <<"O", "-n", "-">>}
Words == {"f1", "-", "a b", "ab\\n"}
Conditions == [g : {"has", "hasnot"}, names : {{"-a"}, {"-T", "-a"}, {"--all"}, {"-n"}, {"a", "long"}, {"--lon", "-", "-ab"}, {}}] \cup [g : {"none", "many"}, names : {{}}]
              \cup [g : {"starts", "contains"}, names : {{"f"}, {"-"}, {" b"}, {"\\n", "f"}}]
Always == [g |-> "always", names |-> {}]
Calls == DOMAIN RoleCalls \cup StreamCalls

PlanStep(c, v) == [c |-> c, v |-> v, split |-> "", m |-> "", a |-> "", info |-> "", naux |-> "0"]
Customs == { [c |-> "append", v |-> TRUE, split |-> s, m |-> m, a |-> a, info |-> i, naux |-> n] :
             s \in {"INDIV_FILES", CC, RR}, m \in {"", "later", "sort"}, a \in {"", "ADJ_LINES_SEQ", "CUSTOM_N_ARY", "uniq"}, i \in {"", "no_add_input", "line_num_offset"}, n \in {"0", "1"} }
FewCustoms == { s \in Customs : s.info = "line_num_offset" /\ s.naux = "0" /\ s.m \in {"later", "sort"} }

VARIABLES inv, steps, stage
vars == <<inv, steps, stage>>
Init == inv = [cmd |-> NewCommand, fos |-> <<>>, ops |-> <<>>] /\ stage = "words"
        /\ steps = IF Part = "commutative" THEN << PlanStep("set_commutative", TRUE) >> ELSE <<>>

\* sets as sequences, for replay
AsSeq(S) == LET RECURSIVE go(_)
                go(R) == IF R = {} THEN <<>> ELSE LET e == CHOOSE e \in R : TRUE IN <<e>> \o go(R \ {e})
            IN  go(S)
Clear(s) == ~Unclear(inv, s.c)
\* no rule decides twice (as far as it gets)
Decent(s) == LET st == RunRule(inv, RuleStart(inv), steps)
             IN  (st.ok /\ ~(NeedsFirst(s.g) /\ inv.ops = <<>>) /\ Holds(inv, s)) => Clear(s) /\ Decides(inv, s.c) \cap st.decided = {}
AddEntry == ~Planning /\ stage = "words" /\ inv.ops = <<>> /\ Len(inv.fos) < MaxFos /\ \E e \in Pick(IF Part = "two" THEN FewEntries ELSE Entries) : inv' = [inv EXCEPT !.fos = Append(@, e)] /\ UNCHANGED <<steps, stage>>
AddOperand == ~Planning /\ stage = "words" /\ Len(inv.ops) < MaxOps /\ \E w \in Pick(IF Part = "two" THEN {"f1", "-"} ELSE Words) : inv' = [inv EXCEPT !.ops = Append(@, w)] /\ UNCHANGED <<steps, stage>>
AddCall == /\ ~Planning /\ Len(steps) < MaxSteps
           /\ \E s \in Pick({ s \in { [g |-> c.g, names |-> c.names, c |-> call, v |-> v] :
                                      c \in (IF Part = "two" THEN {Always} ELSE Conditions \cup {Always}), call \in Calls, v \in (IF Part = "two" THEN {TRUE} ELSE BOOLEAN) } : Decent(s) }) :
                steps' = Append(steps, s)
           /\ stage' = "calls" /\ UNCHANGED inv
AddPlan == /\ Planning /\ Len(steps) < MaxSteps
           /\ \E s \in Pick({ PlanStep(c, TRUE) : c \in DOMAIN PlanCalls \cup {"set_commutative"} } \cup { PlanStep(c, FALSE) : c \in WithFunction }
                            \cup (IF Part # "commutative" /\ (IOEnv.SIM = "1" \/ MaxSteps = 1) THEN Customs ELSE FewCustoms)) : steps' = Append(steps, s)
           /\ stage' = "calls" /\ UNCHANGED inv
Next == AddEntry \/ AddOperand \/ AddCall \/ AddPlan

\* the order of calls does not matter, and every operand keeps its text
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Laws == IF Planning
        THEN LET p == RulePlans(steps) IN p.some => /\ Len(p.plans) = Len(SelectSeq(steps, LAMBDA s : s.c # "set_commutative"))
                                                    /\ \A q \in RangeOf(p.plans) : PlanOk(q)
        ELSE LET r == RuleInfo(inv, steps)
             IN  /\ r.some => AppliesTo(r, inv)
                 /\ \A i \in 1..(Len(steps) - 1) : RuleInfo(inv, Swap(steps, i)) = r
Emit == (stage = "calls") => PrintT("CASE " \o ToJson(
            [kind |-> IF Planning THEN "plans" ELSE "roles", inv |-> inv,
             steps |-> IF Planning THEN steps ELSE [k \in 1..Len(steps) |-> [steps[k] EXCEPT !.names = AsSeq(@)]]]))
EmitTable == (stage = "words" /\ inv.fos = <<>> /\ inv.ops = <<>>) => PrintT("CASE " \o ToJson([kind |-> "table", table |-> NewTable]))
=============================================================================
