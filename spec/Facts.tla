-------------------------------- MODULE Facts --------------------------------
(* What the values of the data types answer about themselves, and what the   *)
(* functions that make them make (C22).                                      *)
(*                                                                           *)
(* A call is a term, too: its kind is the name of the function or method,    *)
(* its parts are the arguments (a method's object first).  CallSig gives the *)
(* sorts of the arguments, Meaning the answer; an argument that is left out  *)
(* is Missing.                                                               *)
EXTENDS Values

Refused == Leaf("Refused", "")
YesNo(b) == Leaf("Bool", IF b THEN "T" ELSE "F")
Access(s) == Node("AccessKind", <<Leaf("AccessKindEnum", s)>>)
Std(s) == Leaf("StdDescriptorEnum", s)
SplitOf(s) == Node("Splitter", <<Leaf("SplitterKindEnum", s)>>)
AggKind(s) == Leaf("AggregatorKindEnum", s)
NonFunc(s, impl) == Node("AggregatorSpecNonFunc", <<AggKind(s), YesNo(impl)>>)
Seq0 == Node("TransformerFlagOptionListSeq", <<>>)
Empty0 == Node("TransformerFlagOptionListEmpty", <<>>)
Same == Node("MapperSpecSame", <<YesNo(TRUE)>>)
Default(x, d) == IF x \in {None, Missing} THEN d ELSE x

InputAccess == {"CONFIG_INPUT", "STREAM_INPUT", "CONTAINER_FOR_INPUT", "EXCLUDES_FROM_INPUT", "OTHER_INPUT"}
OutputAccess == {"STREAM_OUTPUT", "OTHER_OUTPUT"}

-----------------------------------------------------------------------------
(* Questions                                                                 *)
AccessIs == [is_config_input |-> {"CONFIG_INPUT"}, is_stream_input |-> {"STREAM_INPUT"}, is_container_for_input |-> {"CONTAINER_FOR_INPUT"},
             is_excludes_from_input |-> {"EXCLUDES_FROM_INPUT"}, is_other_input |-> {"OTHER_INPUT"}, is_any_input |-> InputAccess,
             is_stream_output |-> {"STREAM_OUTPUT"}, is_other_output |-> {"OTHER_OUTPUT"}, is_any_output |-> OutputAccess]
SplitIs == [is_splitter_round_robin |-> "ROUND_ROBIN_PLAIN", is_splitter_round_robin_with_unwrap_flag |-> "ROUND_ROBIN_UNWRAP_FLAG",
            is_splitter_consec_chunks |-> "CONSEC_CHUNKS"]
SpecIs == [is_aggregator_spec_concatenate |-> "CONCATENATE", is_aggregator_spec_adj_lines_merge |-> "ADJ_LINES_MERGE",
           is_aggregator_spec_adj_lines_seq |-> "ADJ_LINES_SEQ", is_aggregator_spec_adj_lines_func |-> "ADJ_LINES_FUNC",
           is_aggregator_spec_custom_2_ary |-> "CUSTOM_2_ARY", is_aggregator_spec_custom_n_ary |-> "CUSTOM_N_ARY"]
OperandsOf == [get_operands_with_config_input |-> "CONFIG_INPUT", get_operands_with_stream_input |-> "STREAM_INPUT",
               get_operands_with_other_input |-> "OTHER_INPUT", get_operands_with_stream_output |-> "STREAM_OUTPUT",
               get_operands_with_other_output |-> "OTHER_OUTPUT"]
(* Makers without arguments                                                  *)
Made == [make_config_input |-> Access("CONFIG_INPUT"), make_stream_input |-> Access("STREAM_INPUT"),
         make_container_for_input |-> Access("CONTAINER_FOR_INPUT"), make_excludes_from_input |-> Access("EXCLUDES_FROM_INPUT"),
         make_other_input |-> Access("OTHER_INPUT"), make_stream_output |-> Access("STREAM_OUTPUT"), make_other_output |-> Access("OTHER_OUTPUT"),
         get_stdin_fd |-> Node("StdDescriptor", <<Std("STDIN")>>), get_stdout_fd |-> Node("StdDescriptor", <<Std("STDOUT")>>),
         get_stderr_fd |-> Node("StdDescriptor", <<Std("STDERR")>>),
         make_stdin_with_access_stream_input |-> Node("StdDescriptorWithIOInfo", <<Std("STDIN"), Access("STREAM_INPUT")>>),
         make_stdout_with_access_output |-> Node("StdDescriptorWithIOInfo", <<Std("STDOUT"), Access("STREAM_OUTPUT")>>),
         make_splitter_indiv_files |-> SplitOf("INDIV_FILES"), make_splitter_round_robin |-> SplitOf("ROUND_ROBIN_PLAIN"),
         make_splitter_round_robin_with_unwrap |-> SplitOf("ROUND_ROBIN_UNWRAP_FLAG"), make_splitter_consec_chunks |-> SplitOf("CONSEC_CHUNKS"),
         make_aggregator_spec_concatenate |-> NonFunc("CONCATENATE", TRUE), make_aggregator_spec_adj_lines_merge |-> NonFunc("ADJ_LINES_MERGE", FALSE),
         make_aggregator_spec_adj_lines_seq |-> NonFunc("ADJ_LINES_SEQ", FALSE), make_mapper_spec_seq |-> Same,
         make_transformer_same_as_seq |-> Seq0, make_transformer_empty |-> Empty0]
WithTransformer == [make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers |-> "ADJ_LINES_FUNC",
                    make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers |-> "CUSTOM_2_ARY",
                    make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers |-> "CUSTOM_N_ARY"]
FromString == [make_aggregator_spec_adj_lines_func_from_string_representation |-> "ADJ_LINES_FUNC",
               make_aggregator_spec_custom_2_ary_from_string_representation |-> "CUSTOM_2_ARY",
               make_aggregator_spec_custom_n_ary_from_string_representation |-> "CUSTOM_N_ARY"]
TransformerOf == [make_transformer_add |-> "TransformerFlagOptionListAdd", make_transformer_remove |-> "TransformerFlagOptionListRemove",
                  make_transformer_filter |-> "TransformerFlagOptionListFilter", make_transformer_custom |-> "TransformerFlagOptionListCustom"]
PlanOf == [make_parallelizer_indiv_files |-> "INDIV_FILES", make_parallelizer_round_robin |-> "ROUND_ROBIN_PLAIN",
           make_parallelizer_consec_chunks |-> "CONSEC_CHUNKS"]

-----------------------------------------------------------------------------
(* The sorts of the arguments                                                *)
NoArguments == DOMAIN Made
CallSig(call) ==
    CASE call \in DOMAIN AccessIs -> <<"Access">>
      [] call \in DOMAIN SplitIs -> <<"Splitter">>
      [] call \in DOMAIN SpecIs \cup {"get_kind"} -> <<"Aggregator">>
      [] call \in DOMAIN OperandsOf \cup {"get_options_with_other_output"} -> <<"InvIO">>
      [] call \in NoArguments -> <<>>
      [] call \in DOMAIN WithTransformer -> <<"TransformerM", "BoolM">>
      [] call \in DOMAIN FromString -> <<"Text", "BoolM">>
      [] call \in {"make_transformer_add", "make_transformer_custom"} -> <<"List:FOVar">>
      [] call \in {"make_transformer_remove", "make_transformer_filter"} -> <<"List:Text">>
      [] call \in DOMAIN PlanOf -> <<"MapperM", "AggregatorM", "InfoM", "VarM">>
      [] call = "Parallelizer" -> <<"Splitter", "Mapper", "Aggregator", "OptInfo", "Var">>
      [] call = "make_parallelizer_round_robin_with_unwrap_from_other" -> <<"Plan">>
      [] call \in {"get_splitter", "get_mapper_spec", "get_aggregator_spec", "get_info_mapper_aggregator", "are_all_parts_implemented"} -> <<"Plan">>
      [] call = "get_access_from_string" -> <<"AccessText">>
      [] call = "get_name" -> <<"Texted">>
      [] call = "get_arg" -> <<"WithArg">>
      [] call = "get_arg_with_ioinfo" -> <<"WithInfo">>
      [] call = "get_type" -> <<"AnyStd">>
      [] call = "get_access" -> <<"Accessed">>
      [] call = "to_arg_string_type" -> <<"OneOperand">>
      [] call \in {"contains_new_line", "contains_null_char"} -> <<"EscText">>
      [] call = "get_from_original_filename_with_ioinfo" -> <<"AnyFile", "Access">>
      [] call = "get_from_original_stddescriptor_with_ioinfo" -> <<"AnyStd", "Access">>
      [] call = "make_operand_a_filename_with_access" -> <<"OneOperand", "Access">>
      [] call \in {"compute_actual_el_for_input", "compute_actual_el_for_output"} -> <<"ElText">>
      [] call = "return_aggregator_conc_if_none_else_itself" -> <<"OptAggregator">>
      [] call = "return_mapper_spec_seq_if_none_else_itself" -> <<"OptMapper">>
      [] call \in {"return_transformer_flagoption_list_empty_if_none_else_itself", "return_transformer_flagoption_list_same_as_seq_if_none_else_itself"} -> <<"OptTransformer">>
      [] call = "make_mapper_spec_custom" -> <<"Text", "TransformerM", "VarM", "BoolM">>
      [] call = "MapperSpec" -> <<"SpecKind", "TextM", "TransformerM", "BoolM">>
      [] call = "is_aggregator_concatenate" -> <<"AnyVars">>
      [] call = "make_same_as_seq_mapper_from_command_invocation" -> <<"Vars">>
      [] call = "make_aggregator_from_cmd_inv_with_io" -> <<"Vars", "Agg">>
      [] call = "unpack_info" -> <<"List:Plan", "Bool", "Bool">>
      [] call = "grown_info" -> <<"List:Plan", "List:Plan", "Bool">>
      [] call \in {"is_streaming", "get_config_inputs", "get_streaming_inputs", "get_all_inputs"} -> <<"InputsKind", "List:Var", "List:Var">>
      [] call = "get_property_value" -> <<"List:Setting", "List:Setting", "Text">>
      [] call \in {"foldl"} -> <<"Text", "List:Text">>
      [] call = "list_deduplication" -> <<"List:Thing">>
      [] call \in {"return_empty_flag_option_list_if_none_else_itself", "return_empty_pos_config_list_if_none_else_itself", "return_empty_list_if_none_else_itself"} -> <<"OptList">>
      [] call = "return_default_if_none_else_itself" -> <<"OptText", "OptText">>
      [] call = "make_arg_simple" -> <<"List:Text">>
      [] call = "format_arg_chars" -> <<"List:ArgChar">>

Calls == DOMAIN AccessIs \cup DOMAIN SplitIs \cup DOMAIN SpecIs \cup DOMAIN OperandsOf \cup NoArguments \cup DOMAIN WithTransformer
         \cup DOMAIN FromString \cup DOMAIN TransformerOf \cup DOMAIN PlanOf
         \cup {"get_kind", "get_options_with_other_output", "Parallelizer", "make_parallelizer_round_robin_with_unwrap_from_other", "get_splitter",
               "get_mapper_spec", "get_aggregator_spec", "get_info_mapper_aggregator", "are_all_parts_implemented", "get_access_from_string",
               "get_name", "get_arg", "get_arg_with_ioinfo", "get_type", "get_access", "to_arg_string_type", "contains_new_line", "contains_null_char",
               "get_from_original_filename_with_ioinfo", "get_from_original_stddescriptor_with_ioinfo", "make_operand_a_filename_with_access",
               "compute_actual_el_for_input", "compute_actual_el_for_output", "return_aggregator_conc_if_none_else_itself",
               "return_mapper_spec_seq_if_none_else_itself", "return_transformer_flagoption_list_empty_if_none_else_itself",
               "return_transformer_flagoption_list_same_as_seq_if_none_else_itself", "make_mapper_spec_custom", "MapperSpec",
               "is_aggregator_concatenate", "make_same_as_seq_mapper_from_command_invocation", "make_aggregator_from_cmd_inv_with_io",
               "unpack_info", "grown_info", "is_streaming", "get_config_inputs", "get_streaming_inputs", "get_all_inputs", "get_property_value",
               "foldl", "list_deduplication", "return_empty_flag_option_list_if_none_else_itself", "return_empty_pos_config_list_if_none_else_itself",
               "return_empty_list_if_none_else_itself", "return_default_if_none_else_itself", "make_arg_simple", "format_arg_chars"}

-----------------------------------------------------------------------------
(* The answers                                                               *)
Kept(s, P(_)) == SelectSeq(s, P)
HasAccess(x, name) == x.k \in {"FileNameWithIOInfo", "StdDescriptorWithIOInfo"} /\ x.ps[2] = Access(name)

\* a plan, or refused: plain round robin needs an aggregator which respects the order
Plan(split, mapper, agg, info, n) ==
    IF split.ps[1].s = "ROUND_ROBIN_PLAIN" /\ agg.ps[1].s \notin OrderNames THEN Refused
    ELSE Node("Parallelizer", <<split, mapper, agg, Default(info, Leaf("AdditionalInfoSplitterToMapper", "NO_ADD_INPUT")), n>>)
Implemented(spec) == spec.ps[Len(spec.ps)] = YesNo(TRUE)
Unwrapped(p) == [p EXCEPT !.ps[1] = SplitOf("ROUND_ROBIN_UNWRAP_FLAG")]
Chunked(p) == p.ps[1] = SplitOf("CONSEC_CHUNKS")
WithCopies(plans, commutative) ==
    plans \o (IF commutative THEN [i \in 1..Len(SelectSeq(plans, Chunked)) |-> Unwrapped(SelectSeq(plans, Chunked)[i])] ELSE <<>>)

RECURSIVE Folded(_, _), Distinct(_), Chars(_), Latest(_, _)
Folded(acc, s) == IF s = <<>> THEN acc ELSE Folded(List(<<s[1], acc>>), Tail(s))
Distinct(s) == IF s = <<>> THEN <<>>
               ELSE LET d == Distinct(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in { d[i] : i \in 1..Len(d) } THEN d ELSE Append(d, s[Len(s)])
Latest(s, name) == IF s = <<>> THEN None ELSE IF s[Len(s)].ps[1] = name THEN s[Len(s)].ps[2] ELSE Latest(SubSeq(s, 1, Len(s) - 1), name)
HasOther(t) == \E i \in 1..Len(t) : t[i].k = "X" \/ (t[i].k = "Q" /\ \E j \in 1..Len(t[i].ps[1].ps) : t[i].ps[1].ps[j].k = "X")
Chars(s) ==
    IF s = <<>> THEN ""
    ELSE LET c == s[1]
             first == CASE c.k \in {"C", "E"} -> c.ps[1].s
                        [] c.k = "B" -> "$(" \o c.ps[1].s \o ")"
                        [] c.k = "V" -> "${" \o c.ps[1].s \o "}"
                        [] c.k = "Q" -> "\"" \o Chars(c.ps[1].ps) \o "\""
         IN  first \o Chars(Tail(s))
RECURSIVE Depth(_)
Depth(s) == IF s = <<>> THEN 0 ELSE LET d == IF s[1].k = "Q" THEN 1 + Depth(s[1].ps[1].ps) ELSE 1 r == Depth(Tail(s)) IN IF d > r THEN d ELSE r

Meaning(c) ==
    LET a == c.ps
    IN CASE c.k \in DOMAIN AccessIs -> YesNo(a[1].ps[1].s \in AccessIs[c.k])
         [] c.k \in DOMAIN SplitIs -> YesNo(a[1].ps[1].s = SplitIs[c.k])
         [] c.k \in DOMAIN SpecIs -> YesNo(a[1].ps[1].s = SpecIs[c.k])
         [] c.k = "get_kind" -> a[1].ps[1]
         [] c.k \in DOMAIN OperandsOf ->
              List(Kept(a[1].ps[3].ps, LAMBDA x : HasAccess(x, OperandsOf[c.k]) \/ (c.k = "get_operands_with_config_input" /\ x.k = "ArgStringType")))
         [] c.k = "get_options_with_other_output" -> List(Kept(a[1].ps[2].ps, LAMBDA x : x.k = "OptionWithIO" /\ HasAccess(x.ps[2], "OTHER_OUTPUT")))
         [] c.k \in NoArguments -> Made[c.k]
         [] c.k \in DOMAIN WithTransformer -> Node("AggregatorSpecFuncTransformer", <<AggKind(WithTransformer[c.k]), Default(a[1], Seq0), Default(a[2], YesNo(FALSE))>>)
         [] c.k \in DOMAIN FromString -> Node("AggregatorSpecFuncStringRepresentation", <<AggKind(FromString[c.k]), a[1], Default(a[2], YesNo(FALSE))>>)
         [] c.k \in DOMAIN TransformerOf -> Node(TransformerOf[c.k], <<a[1]>>)
         [] c.k \in DOMAIN PlanOf -> Plan(SplitOf(PlanOf[c.k]), Default(a[1], Same), Default(a[2], NonFunc("CONCATENATE", TRUE)), a[3], Default(a[4], Num("0")))
         [] c.k = "Parallelizer" -> Plan(a[1], a[2], a[3], a[4], a[5])
         [] c.k = "make_parallelizer_round_robin_with_unwrap_from_other" -> Unwrapped(a[1])
         [] c.k = "get_splitter" -> a[1].ps[1]
         [] c.k = "get_mapper_spec" -> a[1].ps[2]
         [] c.k = "get_aggregator_spec" -> a[1].ps[3]
         [] c.k = "get_info_mapper_aggregator" -> a[1].ps[5]
         [] c.k = "are_all_parts_implemented" -> YesNo(Implemented(a[1].ps[2]) /\ Implemented(a[1].ps[3]))
         [] c.k = "get_access_from_string" -> IF a[1].s \in AccessNames THEN Access(a[1].s) ELSE Refused
         [] c.k \in {"get_name", "get_type"} -> a[1].ps[1]
         [] c.k \in {"get_arg", "get_arg_with_ioinfo", "get_access"} -> a[1].ps[2]
         [] c.k = "to_arg_string_type" -> Node("ArgStringType", a[1].ps)
         [] c.k = "contains_new_line" -> YesNo(Contains(a[1].s, "\\n"))
         [] c.k = "contains_null_char" -> YesNo(Contains(a[1].s, "\\0"))
         [] c.k \in {"get_from_original_filename_with_ioinfo", "make_operand_a_filename_with_access"} -> Node("FileNameWithIOInfo", <<a[1].ps[1], a[2]>>)
         [] c.k = "get_from_original_stddescriptor_with_ioinfo" -> Node("StdDescriptorWithIOInfo", <<a[1].ps[1], a[2]>>)
         [] c.k = "compute_actual_el_for_input" -> IF a[1].s = "-" THEN Node("StdDescriptor", <<Std("STDIN")>>) ELSE Node("FileName", <<a[1]>>)
         [] c.k = "compute_actual_el_for_output" -> IF a[1].s = "-" THEN Node("StdDescriptor", <<Std("STDOUT")>>) ELSE Node("FileName", <<a[1]>>)
         [] c.k = "return_aggregator_conc_if_none_else_itself" -> Default(a[1], NonFunc("CONCATENATE", TRUE))
         [] c.k = "return_mapper_spec_seq_if_none_else_itself" -> Default(a[1], Same)
         [] c.k = "return_transformer_flagoption_list_empty_if_none_else_itself" -> Default(a[1], Empty0)
         [] c.k = "return_transformer_flagoption_list_same_as_seq_if_none_else_itself" -> Default(a[1], Seq0)
         [] c.k = "make_mapper_spec_custom" -> Node("MapperSpecCustom", <<a[1], Default(a[2], Seq0), Default(a[4], YesNo(FALSE))>>)
         [] c.k = "MapperSpec" -> IF a[1].s = "CUSTOM" THEN Node("MapperSpecCustom", <<Default(a[2], None), Default(a[3], Seq0), Default(a[4], YesNo(FALSE))>>)
                                  ELSE IF a[2] \notin {None, Missing} \/ a[3] \notin {None, Missing} THEN Refused
                                  ELSE Node("MapperSpecSame", <<Default(a[4], YesNo(FALSE))>>)
         [] c.k = "is_aggregator_concatenate" -> YesNo(a[1].k = "Aggregator" /\ a[1].ps[1] = AggKind("CONCATENATE"))
         [] c.k = "make_same_as_seq_mapper_from_command_invocation" -> Node("Mapper", a[1].ps)
         [] c.k = "make_aggregator_from_cmd_inv_with_io" -> Node("Aggregator", <<a[2]>> \o a[1].ps)
         [] c.k = "unpack_info" -> List(<<List(WithCopies(a[1].ps, a[3].s = "T")), a[2], a[3]>>)
         [] c.k = "grown_info" -> List(<<List(WithCopies(a[1].ps \o a[2].ps, a[3].s = "T")), YesNo(FALSE), a[3]>>)
         [] c.k = "is_streaming" -> YesNo(a[1].s = "STREAMING")
         [] c.k \in {"get_config_inputs", "get_streaming_inputs", "get_all_inputs"} ->
              IF a[1].s # "STREAMING" THEN Refused
              ELSE IF c.k = "get_config_inputs" THEN a[2] ELSE IF c.k = "get_streaming_inputs" THEN a[3] ELSE List(a[2].ps \o a[3].ps)
         [] c.k = "get_property_value" -> Latest(a[1].ps \o a[2].ps, a[3])
         [] c.k = "foldl" -> Folded(a[1], a[2].ps)
         [] c.k = "list_deduplication" -> List(Distinct(a[1].ps))
         [] c.k \in {"return_empty_flag_option_list_if_none_else_itself", "return_empty_pos_config_list_if_none_else_itself", "return_empty_list_if_none_else_itself"} -> Default(a[1], List(<<>>))
         [] c.k = "return_default_if_none_else_itself" -> IF a[1] = None THEN a[2] ELSE a[1]
         [] c.k = "make_arg_simple" -> IF Len(a[1].ps) = 1 THEN Node("Flag", a[1].ps) ELSE IF Len(a[1].ps) = 2 THEN Node("Option", a[1].ps) ELSE Refused
         [] c.k = "format_arg_chars" -> IF HasOther(a[1].ps) THEN Refused ELSE Str(Chars(a[1].ps))

\* what the answers mean does not say of a call
InScope(c) == c.k = "format_arg_chars" => Depth(c.ps[1].ps) <= 2
=============================================================================
