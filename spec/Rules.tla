-------------------------------- MODULE Rules --------------------------------
(* Rules for new commands, written as documented: a table of flags and       *)
(* options, and for the roles of operands and for the plans a sequence of    *)
(* calls of the generators' interface, each perhaps under a condition.       *)
(*                                                                           *)
(* A step is a record [g, names, c, v]: condition g (with names or a text)   *)
(* and call c (with a value v).                                              *)
EXTENDS Text, IOInfo, Para

NewCommand == "vcmd"
\* as in a file with options
NewTable ==
    [flag |-> << <<"-a", "--all">>, <<"-b">>, <<"--long">> >>,
     option |-> << <<"-n", "--num", "NUM">>, <<"-s", <<"SUFFIX", "STREAM_INPUT">>>>, <<"-f", "--file", <<"FILE", "CONFIG_INPUT">>>>,
                   <<"-i", <<"FILE", "STREAM_INPUT">>>>, <<"-c", "--container", <<"FILE", "CONTAINER_FOR_INPUT">>>>,
                   <<"-x", <<"FILE", "EXCLUDES_FROM_INPUT">>>>, <<"-d", <<"DIR", "OTHER_INPUT">>>>, <<"-o", "--output", <<"FILE", "STREAM_OUTPUT">>>>,
                   <<"-T", <<"DIRECTORY", "OTHER_OUTPUT">>>>, <<"-w", "WORD">> >>]
NewOptions == [o \in {"-n", "-s", "-w"} |-> "none"] @@ ("-f" :> "CONFIG_INPUT") @@ ("-i" :> "STREAM_INPUT") @@ ("-c" :> "CONTAINER_FOR_INPUT")
              @@ ("-x" :> "EXCLUDES_FROM_INPUT") @@ ("-d" :> "OTHER_INPUT") @@ ("-o" :> "STREAM_OUTPUT") @@ ("-T" :> "OTHER_OUTPUT")
Known(inv) == \A k \in 1..Len(inv.fos) : inv.fos[k][1] = "O" => inv.fos[k][2] \in DOMAIN NewOptions
TypedNew(e) == IF e[1] = "F" THEN e
               ELSE <<"O", e[2]>> \o (IF NewOptions[e[2]] = "none" THEN TypedStr(e[3]) ELSE TypedFile(e[3], NewOptions[e[2]]))

(* Conditions                                                                *)
Filtered(inv, names) == SelectSeq(inv.fos, LAMBDA e : e[2] \in names)
NeedsFirst(g) == g \in {"starts", "contains"}
Holds(inv, s) ==
    CASE s.g = "always" -> TRUE
      [] s.g = "has" -> Filtered(inv, s.names) # <<>>
      [] s.g = "hasnot" -> Filtered(inv, s.names) = <<>>
      [] s.g = "none" -> inv.ops = <<>>
      [] s.g = "many" -> Len(inv.ops) > 1
      [] s.g = "starts" -> \E t \in s.names : StartsWith(inv.ops[1], t)
      [] s.g = "contains" -> \E t \in s.names : Contains(inv.ops[1], t)

(* Calls about operands: which positions get which role                      *)
RoleCalls ==
    [all_operands_are_streaming_inputs |-> <<"all", "STREAM_INPUT">>, all_operands_are_streaming_outputs |-> <<"all", "STREAM_OUTPUT">>,
     all_operands_are_other_inputs |-> <<"all", "OTHER_INPUT">>, all_operands_are_other_outputs |-> <<"all", "OTHER_OUTPUT">>,
     all_but_last_operand_is_streaming_input |-> <<"butlast", "STREAM_INPUT">>, all_but_last_operand_is_other_input |-> <<"butlast", "OTHER_INPUT">>,
     all_but_first_operand_is_streaming_input |-> <<"butfirst", "STREAM_INPUT">>, all_but_first_operand_is_streaming_output |-> <<"butfirst", "STREAM_OUTPUT">>,
     all_but_first_operand_is_other_input |-> <<"butfirst", "OTHER_INPUT">>,
     only_last_operand_is_stream_output |-> <<"last", "STREAM_OUTPUT">>, only_last_operand_is_other_output |-> <<"last", "OTHER_OUTPUT">>,
     set_all_operands_as_config_arg_type_string |-> <<"all", "STR">>, set_first_operand_as_config_arg_type_string |-> <<"first", "STR">>,
     set_first_operand_as_config_arg_type_filename_or_std_descriptor |-> <<"first", "CONFIG_INPUT">>, set_all_operands_as_arg_string |-> <<"all", "STR">>]
StreamCalls == {"set_implicit_use_of_stdin", "set_implicit_use_of_stdout", "if_no_operands_given_stdin_implicitly_used"}
Which(where, n) == CASE where = "all" -> 1..n [] where = "butlast" -> 1..(n - 1) [] where = "butfirst" -> 2..n
                     [] where = "last" -> {n} [] where = "first" -> {1}
\* what a call decides; no rule decides anything twice
Decides(inv, c) == CASE c \in DOMAIN RoleCalls -> { ToString(k) : k \in Which(RoleCalls[c][1], Len(inv.ops)) }
                     [] c = "set_implicit_use_of_stdout" -> {"stdout"}
                     [] OTHER -> {"stdin"}
\* a call about an operand which is not there fails
Impossible(inv, c) == c \in DOMAIN RoleCalls /\ RoleCalls[c][1] \in {"last", "first"} /\ inv.ops = <<>>
\* left open
Unclear(inv, c) == c \in DOMAIN RoleCalls /\ RoleCalls[c][1] \in {"butlast", "butfirst"} /\ inv.ops = <<>>

RuleStart(inv) == [ok |-> Known(inv), roles |-> [k \in 1..Len(inv.ops) |-> "STREAM_INPUT"], si |-> "none", so |-> "none", decided |-> {}]
RuleStep(inv, st, s) ==
    IF ~st.ok THEN st
    ELSE IF NeedsFirst(s.g) /\ inv.ops = <<>> THEN [st EXCEPT !.ok = FALSE]
    ELSE IF ~Holds(inv, s) THEN st
    ELSE IF Impossible(inv, s.c) THEN [st EXCEPT !.ok = FALSE]
    ELSE LET d == Decides(inv, s.c)
         IN  [st EXCEPT !.decided = @ \cup d,
                        !.roles = IF s.c \in DOMAIN RoleCalls THEN [k \in DOMAIN @ |-> IF ToString(k) \in d THEN RoleCalls[s.c][2] ELSE @[k]] ELSE @,
                        !.si = IF s.c = "set_implicit_use_of_stdin" /\ s.v THEN "STREAM_INPUT"
                               ELSE IF s.c = "if_no_operands_given_stdin_implicitly_used" /\ inv.ops = <<>> THEN "STREAM_INPUT" ELSE @,
                        !.so = IF s.c = "set_implicit_use_of_stdout" /\ s.v THEN "STREAM_OUTPUT" ELSE @]
RECURSIVE RunRule(_, _, _)
RunRule(inv, st, steps) == IF steps = <<>> THEN st ELSE RunRule(inv, RuleStep(inv, st, Head(steps)), Tail(steps))
RuleInfo(inv, steps) ==
    LET st == RunRule(inv, RuleStart(inv), steps)
        fos == [k \in 1..Len(inv.fos) |-> TypedNew(inv.fos[k])]
        ops == [k \in 1..Len(inv.ops) |-> TypedOp(inv.ops[k], st.roles[k])]
    IN  IF ~st.ok THEN NoInfo
        ELSE [some |-> TRUE, fos |-> fos, ops |-> ops, si |-> st.si, so |-> st.so,
              other |-> \E e \in RangeOf(fos) \cup RangeOf(ops) : AccessOf(e) = "OTHER_OUTPUT"]

(* What the annotated invocation says about its parts                        *)
OperandsWith(info, accesses) == SelectSeq(info.ops, LAMBDA t : AccessOf(t) \in accesses)
Lists(info) == [config |-> SelectSeq(info.ops, LAMBDA t : t[1] = "STR" \/ AccessOf(t) = "CONFIG_INPUT"),
                stream_input |-> OperandsWith(info, {"STREAM_INPUT"}), other_input |-> OperandsWith(info, {"OTHER_INPUT"}),
                stream_output |-> OperandsWith(info, {"STREAM_OUTPUT"}), other_output |-> OperandsWith(info, {"OTHER_OUTPUT"}),
                options_other_output |-> SelectSeq(info.fos, LAMBDA t : AccessOf(t) = "OTHER_OUTPUT")]

-----------------------------------------------------------------------------
(* Plans.  A step is a record [c, split, m, a, info, naux]                   *)
ShortPlan(split, agg) == <<split, "SAME_AS_SEQ", "", "T", agg, "", IF agg = "CONCATENATE" THEN "T" ELSE "F", "no_add_input", "0">>
PlanCalls ==
    [append_to_parallelizer_list_if_seq_conc |-> ShortPlan("INDIV_FILES", "CONCATENATE"), append_to_parallelizer_list_if_seq_adjm |-> ShortPlan("INDIV_FILES", "ADJ_LINES_MERGE"),
     append_to_parallelizer_list_cc_seq_conc |-> ShortPlan(CC, "CONCATENATE"), append_to_parallelizer_list_cc_seq_adjm |-> ShortPlan(CC, "ADJ_LINES_MERGE"),
     append_to_parallelizer_list_rr_seq_conc |-> ShortPlan(RR, "CONCATENATE"), append_to_parallelizer_list_rr_seq_adjm |-> ShortPlan(RR, "ADJ_LINES_MERGE"),
     append_to_parallelizer_list_rr_seq_adjs |-> ShortPlan(RR, "ADJ_LINES_SEQ"), append_to_parallelizer_list_cc_seq_adjs |-> ShortPlan(CC, "ADJ_LINES_SEQ"),
     append_to_parallelizer_list_rr_seq_adjf |-> ShortPlan(RR, "ADJ_LINES_FUNC"), append_to_parallelizer_list_cc_seq_adjf |-> ShortPlan(CC, "ADJ_LINES_FUNC")]
WithFunction == {"append_to_parallelizer_list_rr_seq_adjf", "append_to_parallelizer_list_cc_seq_adjf"}
\* m and a: "" for what is taken if nothing is given
MapperPart(m) == CASE m = "" -> <<"SAME_AS_SEQ", "", "T">> [] m = "later" -> <<"SAME_AS_SEQ", "", "F">> [] OTHER -> <<"CUSTOM", m, "T">>
AggPart(a) == CASE a = "" -> <<"CONCATENATE", "", "T">> [] a \in {"ADJ_LINES_MERGE", "ADJ_LINES_SEQ"} -> <<a, "", "F">> [] a = "CUSTOM_N_ARY" -> <<a, "", "F">>
                [] OTHER -> <<"CUSTOM_2_ARY", a, "T">>
StepPlan(s) == CASE s.c \in WithFunction -> [PlanCalls[s.c] EXCEPT ![7] = IF s.v THEN "T" ELSE "F"]
                 [] s.c \in DOMAIN PlanCalls -> PlanCalls[s.c]
                 [] OTHER -> <<s.split>> \o MapperPart(s.m) \o AggPart(s.a) \o <<IF s.info = "" THEN "no_add_input" ELSE s.info, s.naux>>
RECURSIVE RunPlans(_, _)
RunPlans(st, steps) ==
    IF steps = <<>> \/ ~st.some THEN st
    ELSE LET s == Head(steps)
         IN  RunPlans(IF s.c = "set_commutative" THEN [st EXCEPT !.comm = TRUE]
                      ELSE IF ~PlanOk(StepPlan(s)) THEN NoPlans
                      ELSE [st EXCEPT !.plans = Append(@, StepPlan(s))], Tail(steps))
RulePlans(steps) == RunPlans(Some(<<>>), steps)
=============================================================================
