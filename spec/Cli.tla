--------------------------------- MODULE Cli ---------------------------------
(* The command-line tool among other processes.                              *)
(* The place to save to is in a state [kind, own, limited]:                  *)
(*   kind : what is there, or why nothing can be put there                   *)
(*   own  : whose it is: "init" from before, "adv" of another process, "t1"  *)
(*          and "t2" of the tool and of another run of the tool              *)
(*   limited : whether the tool can store nothing of the size of a report    *)
EXTENDS IOInfo, Para

Missing == {"absent"}
Hopeless == {"fileparent", "toolong", "emptypath", "slash", "unwritable"}
Occupied == {"file", "dir", "link", "linkdir", "dangling"}
Inits == Missing \cup Hopeless \cup Occupied \cup {"noparent"}
Actions == {"mkfile", "mkdir", "mklink", "mkdangling", "mkparent", "remove", "tool"}

Put(s, kind, own) == IF s.kind = "absent" THEN [s EXCEPT !.kind = kind, !.own = own] ELSE s

\* the tool: nothing is ever replaced; [s, out]
Save(s, who, parsed) ==
    IF ~parsed THEN [s |-> s, out |-> "lost"]
    ELSE IF s.kind # "absent" THEN [s |-> s, out |-> "printed"]
    ELSE IF s.limited THEN [s |-> Put(s, "partial", who), out |-> "printed"]
    ELSE [s |-> Put(s, "file", who), out |-> "stored"]

\* another process
Act(s, a) ==
    CASE a = "mkfile" -> Put(s, "file", "adv")
      [] a = "mkdir" -> Put(s, "dir", "init")
      [] a = "mklink" -> Put(s, "link", "init")
      [] a = "mkdangling" -> Put(s, "dangling", "init")
      [] a = "mkparent" -> IF s.kind = "noparent" THEN [s EXCEPT !.kind = "absent"] ELSE s
      [] a = "remove" -> IF \/ s.kind \in {"link", "linkdir", "dangling"}
                            \/ s.kind = "file" /\ s.own \in {"init", "adv"}
                         THEN [s EXCEPT !.kind = "absent", !.own = "init"] ELSE s

\* all possible ends where the tool saves at some time while the actions, those up to `first` before it, happen
Ends(s0, acts, first, saves, parsed1, parsed2) ==
    LET RECURSIVE Run(_, _, _, _, _)
        Run(s, k, when, out1, out2) ==
            IF k = when /\ out1 = "none"
            THEN LET r == IF saves THEN Save(s, "t1", parsed1)
                          ELSE [s |-> s, out |-> IF parsed1 THEN "printed" ELSE "lost"]
                 IN  Run(r.s, k, when, r.out, out2)
            ELSE IF k = Len(acts) THEN [kind |-> s.kind, own |-> s.own, out1 |-> out1, out2 |-> out2]
            ELSE IF acts[k + 1] = "tool"
            THEN LET r == IF saves THEN Save(s, "t2", parsed2)
                          ELSE [s |-> s, out |-> IF parsed2 THEN "printed" ELSE "lost"]
                 IN  Run(r.s, k + 1, when, out1, r.out)
            ELSE Run(Act(s, acts[k + 1]), k + 1, when, out1, out2)
    IN  { Run(s0, 0, when, "none", "none") : when \in first..Len(acts) }

-----------------------------------------------------------------------------
(* The report: four parts, what must be found in them in this order, and     *)
(* how the third depends on the information                                  *)
TypedTokens(t) == IF t[1] = "STR" THEN <<t[2]>> ELSE <<t[2], t[3]>>
FoTokens(e) == IF e[1] = "F" THEN <<e[2]>> ELSE <<e[2]>> \o TypedTokens(Drop(e, 2))
ParsedTokens(inv) == <<inv.cmd>> \o Flatten([k \in 1..Len(inv.fos) |-> Drop(inv.fos[k], 1)]) \o inv.ops
InfoTokens(inv, info) ==
    IF ~info.some \/ info.other THEN <<>>
    ELSE <<inv.cmd>> \o Flatten([k \in 1..Len(info.fos) |-> FoTokens(info.fos[k])])
         \o Flatten([k \in 1..Len(info.ops) |-> TypedTokens(info.ops[k])])
         \o (IF info.si = "none" THEN <<"None">> ELSE <<"STDIN", info.si>>)
         \o (IF info.so = "none" THEN <<"None">> ELSE <<"STDOUT", info.so>>)
PlanTokens(inv) ==
    LET p == StoredPlans(inv)
    IN  Flatten([k \in 1..Len(p.plans) |-> <<p.plans[k][1], p.plans[k][2], p.plans[k][5]>>])
        \o <<"is_commutative", IF p.comm THEN "True" ELSE "False">>
Tokens(line) ==
    LET e == ParseLine(line)
    IN  IF ~e.ok THEN << <<>>, <<>>, <<>>, <<>> >>
        ELSE << <<>>, ParsedTokens(e.inv), InfoTokens(e.inv, Info(e.inv)), PlanTokens(e.inv) >>

NoInformation == "Information not provided so considered side-effectful."
OtherOutputs == "Provided command has outputs other than streaming."
Report4(inv, lib) ==
    LET info == Info(inv)
    IN  <<lib[1], lib[2], IF ~info.some THEN NoInformation ELSE IF info.other THEN OtherOutputs ELSE lib[3], lib[4]>>
=============================================================================
