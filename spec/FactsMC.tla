------------------------------- MODULE FactsMC -------------------------------
(* Calls of the functions in Facts with arguments of every shape: from the   *)
(* smallest and some larger arguments, single places are changed.            *)
EXTENDS Facts, Json

MaxSteps == Number(IOEnv.STEPS)

Larger(sort) ==
    CASE sort = "List:Plan" -> List(<<Node("Parallelizer", <<SplitOf("ROUND_ROBIN_PLAIN"), Same, NonFunc("CONCATENATE", TRUE), None, Num("0")>>),
                                      Node("Parallelizer", <<SplitOf("CONSEC_CHUNKS"), Same, NonFunc("CONCATENATE", TRUE), None, Num("1")>>),
                                      Node("Parallelizer", <<SplitOf("CONSEC_CHUNKS"), Small("MapperSpecCustom"), NonFunc("ADJ_LINES_SEQ", FALSE), Leaf("AdditionalInfoSplitterToMapper", "BYTE_OFFSET"), Num("2")>>)>>)
      [] sort = "InvIO" -> Node("CommandInvocationWithIO", <<Str("a"),
             List(<<Node("OptionWithIO", <<Str("-a"), Node("FileNameWithIOInfo", <<Str("a"), Access("OTHER_OUTPUT")>>)>>), Node("Flag", <<Str("-a")>>),
                    Node("OptionWithIO", <<Str("a"), Node("StdDescriptorWithIOInfo", <<Std("STDOUT"), Access("OTHER_OUTPUT")>>)>>)>>),
             List(<<Node("FileNameWithIOInfo", <<Str("a"), Access("OTHER_OUTPUT")>>), Node("StdDescriptorWithIOInfo", <<Std("STDIN"), Access("CONFIG_INPUT")>>),
                    Node("ArgStringType", <<Str("a")>>)>>), None, None>>)
      [] sort = "List:Thing" -> List(<<Small("Flag"), Str("a"), Small("Option"), Small("Flag")>>)
      [] sort = "List:Text" -> List(<<Str("a"), Str(""), Str("a")>>)
      [] sort = "List:Setting" -> List(<<Node("Setting", <<Str("a"), Str("-a")>>), Node("Setting", <<Str("a"), Str("")>>)>>)
      [] sort = "List:Var" -> List(<<Num("2"), Num("1")>>)
      [] sort = "List:FOVar" -> List(<<Small("Flag"), Small("OptionWithIOVar")>>)
      [] sort = "OptList" -> List(<<>>)
      [] sort = "List:ArgChar" -> List(<<Small("C"), Node("Q", <<List(<<Small("B")>>)>>)>>)
      [] sort \in {"Aggregator", "AggregatorM", "OptAggregator"} -> Node("AggregatorSpecFuncStringRepresentation", <<AggKind("CUSTOM_2_ARY"), Str("a"), YesNo(TRUE)>>)
      [] sort \in {"Mapper", "MapperM", "OptMapper"} -> Node("MapperSpecCustom", <<Str("a"), Node("TransformerFlagOptionListFilter", <<List(<<Str("-a")>>)>>), YesNo(TRUE)>>)
      [] sort \in {"Vars", "AnyVars"} -> Node("CommandInvocationWithIOVars", <<Str("a"), List(<<Small("OptionWithIOVar"), Small("Flag")>>), List(<<Small("ArgStringType")>>), Num("1"), Num("2"),
                                    Node("Map", <<Node("Pair", <<Num("1"), Access("STREAM_INPUT")>>), Node("Pair", <<Num("2"), Access("STREAM_OUTPUT")>>)>>)>>)
      [] OTHER -> SmallOf(sort)
CallOf(k, large) == Node(k, [i \in 1..Len(CallSig(k)) |-> IF large THEN Larger(CallSig(k)[i]) ELSE SmallOf(CallSig(k)[i])])

VARIABLES c, steps
Init == /\ c \in { CallOf(k, large) : k \in Calls, large \in BOOLEAN }
        /\ steps = 0
Changed(call) == UNION { { [call EXCEPT !.ps = [@ EXCEPT ![i] = m]] : m \in Mutants(call.ps[i], CallSig(call.k)[i]) } : i \in 1..Len(call.ps) }
Next == /\ steps < MaxSteps
        /\ \E d \in Pick({ x \in Changed(c) : Valid(x) /\ InScope(x) }) : c' = d
        /\ steps' = steps + 1

\* the questions are consistent with each other
Holds(call, x) == Meaning(Node(call, <<x>>)) = YesNo(TRUE)
Laws ==
    /\ \A s \in AccessNames : /\ Holds("is_any_input", Access(s)) # Holds("is_any_output", Access(s))
                              /\ Cardinality({ q \in DOMAIN AccessIs \ {"is_any_input", "is_any_output"} : Holds(q, Access(s)) }) = 1
                              /\ Meaning(Node("get_access_from_string", <<Str(s)>>)) = Access(s)
    /\ \A s \in SplitNames : Cardinality({ q \in DOMAIN SplitIs : Holds(q, SplitOf(s)) }) = IF s = "INDIV_FILES" THEN 0 ELSE 1
    /\ Len(c.ps) = Len(CallSig(c.k))
    /\ (c.k \in DOMAIN PlanOf \cup {"Parallelizer"} /\ Meaning(c) # Refused) => Valid(Meaning(c))
    /\ c.k = "unpack_info" => \A p \in { Meaning(c).ps[1].ps[i] : i \in 1..Len(Meaning(c).ps[1].ps) } : Valid(p)
Emit == PrintT("CASE " \o ToJson([c |-> c]))
=============================================================================
