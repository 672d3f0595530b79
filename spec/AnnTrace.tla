------------------------------ MODULE AnnTrace ------------------------------
(* Decides properties C01..C08, C10, C11 and C19 on what the real code answered   *)
(* for command lines (or invocations built by hand).  A record has           *)
(*   line : the command line                                                 *)
(*   hand : whether the invocation given was built by hand instead           *)
(*   res  : [ok, inv, io, para, raised, praised, unchanged]                           *)
(* PROP selects the clauses.                                                 *)
EXTENDS Text, Tables, Lexer, Parser, IOInfo, Para, Judge

AnnotatedCommands == {"alt_bigram_aux_reduce", "alt_bigrams_aux", "awk", "bigrams_aux", "cat", "col", "comm",
    "custom_sort", "custom_tr", "cut", "diff", "grep", "head", "mkfifo", "mv", "rm", "sed", "seq", "set_diff", "sort",
    "tail", "tee", "test_one", "test_two", "tr", "uniq", "wc", "xargs"}

(* What the specification expects of a record                                *)
Expected(r) == IF r.hand THEN [ok |-> TRUE, inv |-> r.given] ELSE ParseLine(r.line)

If(b, name) == IF b THEN {name} ELSE {}

ParseClauses(r) ==
    LET lx == Lex(r.line)
        ok == lx.ok /\ lx.words # <<>>
    IN  If(r.res.ok # ok, IF ok THEN "accepted" ELSE "rejected")
        \cup (IF ok /\ r.res.ok THEN If(~Conserves(lx.words, r.res.inv), "conserves") ELSE {})

ClassifyClauses(r) ==
    LET e == ParseLine(r.line)
    IN  IF ~e.ok THEN {}
        ELSE If(~r.res.ok, "parsed")
             \cup (IF r.res.ok THEN If(r.res.inv.cmd # e.inv.cmd, "command") \cup If(r.res.inv.fos # e.inv.fos, "flags")
                                    \cup If(r.res.inv.ops # e.inv.ops, "operands")
                                    \cup If(~Canonical(r.res.inv), "canonical")
                   ELSE {})

\* information is there whenever it should be
Present(r, info) == r.res.ok /\ r.res.raised = "" /\ r.res.io.some

RoleClauses(r, info) ==
    IF ~info.some THEN {}
    ELSE IF ~Present(r, info) THEN {"information"}
    ELSE If(r.res.io.ops # info.ops, "operands")

ImplicitClauses(r, info) ==
    IF ~info.some THEN {}
    ELSE IF ~Present(r, info) THEN {"information"}
    ELSE If(r.res.io.si # info.si, "stdin") \cup If(r.res.io.so # info.so, "stdout")

OptionClauses(r, info) ==
    IF ~info.some THEN {}
    ELSE IF ~Present(r, info) THEN {"information"}
    ELSE If(r.res.io.fos # info.fos, "options") \cup If(r.res.io.other # info.other, "other outputs")

ApplyClauses(r, info) ==
    IF ~info.some THEN {}
    ELSE IF ~Present(r, info) THEN {"information"}
    ELSE If(~AppliesTo(r.res.io, r.res.inv), "applied") \cup If(r.res.io.cmd # r.res.inv.cmd, "command")
         \cup If(~r.res.unchanged, "unchanged")

RobustClauses(r, inv, info) ==
    IF ~r.res.ok THEN {}
    ELSE If(r.res.raised # "" \/ r.res.praised # "", "raised")
         \cup If(~info.some /\ r.res.io.some, "no information")
         \cup If(info.some /\ r.res.raised = "" /\ ~r.res.io.some, "information")
         \cup If(inv.cmd \notin AnnotatedCommands /\ r.res.para.some, "no plans")
         \cup If(inv.cmd \in AnnotatedCommands /\ ~StoredPlans(inv).some /\ r.res.para.plans # <<>>, "no plans")

PlanClauses(r, para) ==
    If(r.res.praised # "", "raised")
    \cup (IF r.res.praised # "" THEN {}
          ELSE If(r.res.para.plans # para.plans, "plans")
               \cup If(\E k \in 1..Len(r.res.para.plans) : ~PlanOk(r.res.para.plans[k]), "order"))

InferClauses(r, para) ==
    If(r.res.praised # "", "raised")
    \cup (IF r.res.praised # "" THEN {}
          ELSE If(r.res.para.comm # para.comm, "commutative")
               \cup If(r.res.para.plans # para.plans, "stored plans")
               \cup If(r.res.para.inferred # InferredFrom(r.res.para.plans, r.res.para.comm), "inferred plans")
               \cup If(~r.res.para.stable, "stable"))

Clauses(r) ==
    CASE Prop = "C01" -> ParseClauses(r)
      [] Prop = "C02" -> ClassifyClauses(r)
      [] OTHER ->
         LET e == Expected(r)
             info == IF e.ok THEN Info(e.inv) ELSE NoInfo
             para == IF e.ok THEN StoredPlans(e.inv) ELSE NoPlans
         IN  IF ~e.ok THEN {}
             ELSE IF ~r.res.ok THEN {"parsed"}
             ELSE CASE Prop = "C04" -> RoleClauses(r, info)
                    [] Prop = "C05" -> ImplicitClauses(r, info)
                    [] Prop = "C06" -> OptionClauses(r, info)
                    [] Prop = "C07" -> ApplyClauses(r, info)
                    [] Prop = "C08" -> RobustClauses(r, e.inv, info)
                    [] Prop = "C19" -> ClassifyClauses(r) \cup OptionClauses(r, info)
                    [] Prop = "C10" -> PlanClauses(r, para)
                    [] Prop = "C11" -> InferClauses(r, para)

Wanted(r) ==
    LET e == Expected(r)
    IN  CASE Prop \in {"C01", "C02", "C19"} -> ToJson([lex |-> Lex(r.line), parse |-> e])
          [] Prop \in {"C04", "C05", "C06", "C07", "C08"} -> ToJson(Info(e.inv))
          [] OTHER -> ToJson(StoredPlans(e.inv))

Check == l <= N => LET r == Records[l]
                       bad == Clauses(r)
                   IN  Report(r, bad, IF bad = {} THEN "" ELSE Wanted(r))
=============================================================================
