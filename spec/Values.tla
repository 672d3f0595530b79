------------------------------- MODULE Values -------------------------------
(* The values the library's data types can take, and when they are equal.    *)
(*                                                                           *)
(* A value is a term [k, s, ps]: its kind, a text for leaves ("Str", "Num",  *)
(* "Bool", "None" and the members of enumerations), and its parts.  Lists    *)
(* and maps (lists of pairs) are terms, too.                                 *)
(*                                                                           *)
(* Every part has a sort; Of(sort) are the kinds of node which a part of the *)
(* sort may be, Leaves(sort) the leaves, and Sig(kind) the sorts of a node's *)
(* parts.                                                                    *)
EXTENDS Text

Leaf(k, s) == [k |-> k, s |-> s, ps |-> <<>>]
Node(k, ps) == [k |-> k, s |-> "", ps |-> ps]
Str(s) == Leaf("Str", s)
Num(s) == Leaf("Num", s)
None == Leaf("None", "")
List(ps) == Node("List", ps)
Map(ps) == Node("Map", ps)

AccessNames == {"CONFIG_INPUT", "STREAM_INPUT", "CONTAINER_FOR_INPUT", "EXCLUDES_FROM_INPUT", "OTHER_INPUT", "STREAM_OUTPUT", "OTHER_OUTPUT"}
AggNames == {"CONCATENATE", "ADJ_LINES_MERGE", "ADJ_LINES_SEQ", "ADJ_LINES_FUNC", "CUSTOM_2_ARY", "CUSTOM_N_ARY"}
SplitNames == {"INDIV_FILES", "ROUND_ROBIN_PLAIN", "ROUND_ROBIN_UNWRAP_FLAG", "CONSEC_CHUNKS"}
OrderNames == {"CONCATENATE", "ADJ_LINES_MERGE", "ADJ_LINES_SEQ", "ADJ_LINES_FUNC"}
InfoNames == {"NO_ADD_INPUT", "LINE_NUM_OFFSET", "BYTE_OFFSET", "LINE_NUM_AND_BYTE_OFFSET"}
Texts == {"a", "-a", "", "é"}

Missing == Leaf("Missing", "")
Enum(k, names) == { Leaf(k, n) : n \in names }
Leaves(sort) ==
    CASE sort = "Text" -> { Str(s) : s \in Texts }
      [] sort = "OptText" -> { Str(s) : s \in Texts } \cup {None}
      [] sort = "Kind" -> Enum("AccessKindEnum", AccessNames)
      [] sort = "Std" -> Enum("StdDescriptorEnum", {"STDIN", "STDOUT", "STDERR"})
      [] sort = "Agg" -> Enum("AggregatorKindEnum", AggNames)
      [] sort = "AggPlain" -> Enum("AggregatorKindEnum", {"CONCATENATE", "ADJ_LINES_MERGE", "ADJ_LINES_SEQ"})
      [] sort = "AggFunc" -> Enum("AggregatorKindEnum", {"ADJ_LINES_FUNC", "CUSTOM_2_ARY", "CUSTOM_N_ARY"})
      [] sort = "Split" -> Enum("SplitterKindEnum", SplitNames)
      [] sort = "OptInfo" -> Enum("AdditionalInfoSplitterToMapper", InfoNames) \cup {None}
      [] sort = "Bool" -> Enum("Bool", {"T", "F"})
      [] sort = "Var" -> Enum("Num", {"1", "2"})
      [] sort = "OptVar" -> Enum("Num", {"1", "2"}) \cup {None}
      [] sort = "ArgVar" -> {Num("1")}
      [] sort \in {"OptStd", "OptTransformer"} -> {None}
      \* arguments of the calls in Facts
      [] sort = "Thing" -> { Str(s) : s \in {"a", "", "-a"} } \cup {Num("0"), Num("1"), None}
      [] sort = "AccessText" -> { Str(s) : s \in AccessNames \cup {"", "a", "stream_input", "STREAM", "INPUT", "OUTPUT", "STREAM_INPUT ", "Stream_Input", "NONE"} }
      [] sort = "ElText" -> { Str(s) : s \in {"-", "--", "", "a", "-a", "- ", "a-", "STDIN", "/dev/stdin"} }
      [] sort = "EscText" -> { Str(s) : s \in {"", "n", "0", "\\n", "\\0", "\\", "a\\nb", "\\\\", "\\t", "x\\0", "n\\", "\\0\\n"} }
      [] sort = "OptMapper" -> {None} [] sort = "OptAggregator" -> {None}
      [] sort \in {"MapperM", "AggregatorM", "TransformerM"} -> {None, Missing}
      [] sort = "InfoM" -> Enum("AdditionalInfoSplitterToMapper", InfoNames) \cup {None, Missing}
      [] sort = "BoolM" -> Enum("Bool", {"T", "F"}) \cup {Missing}
      [] sort = "VarM" -> Enum("Num", {"0", "1", "2"}) \cup {Missing}
      [] sort = "TextM" -> { Str(s) : s \in Texts } \cup {None, Missing}
      [] sort = "SpecKind" -> Enum("MapperSpecKindEnum", {"SAME_AS_SEQ", "CUSTOM"})
      [] sort = "InputsKind" -> Enum("InputsEnum", {"DEFAULT", "STREAMING"})
      [] sort = "OptList" -> {None}
      [] sort = "Char" -> { Leaf("Chr", c) : c \in {"a", "\\", "*", "\"", " ", "é"} }
      [] OTHER -> {}

Of(sort) ==
    CASE sort = "Access" -> {"AccessKind"}
      [] sort \in {"Named", "PosArg"} -> {"FileName", "StdDescriptor", "ArgStringType"}
      [] sort = "FO" -> {"Flag", "Option"}
      [] sort = "FOIO" -> {"Flag", "OptionWithIO"}
      [] sort = "FOVar" -> {"Flag", "OptionWithIOVar"}
      [] sort = "Operand" -> {"Operand"}
      [] sort = "ArgIO" -> {"FileNameWithIOInfo", "StdDescriptorWithIOInfo", "ArgStringType"}
      [] sort = "OptStd" -> {"FileNameWithIOInfo", "StdDescriptorWithIOInfo"}
      [] sort = "ArgVar" -> {"ArgStringType"}
      [] sort \in {"Transformer", "OptTransformer", "TransformerM"} ->
           {"TransformerFlagOptionListSeq", "TransformerFlagOptionListAdd", "TransformerFlagOptionListRemove", "TransformerFlagOptionListFilter",
            "TransformerFlagOptionListEmpty", "TransformerFlagOptionListCustom", "ChainTransformerFlagOptionList"}
      [] sort = "Mapper" -> {"MapperSpecSame", "MapperSpecCustom"}
      [] sort = "Aggregator" -> {"AggregatorSpecNonFunc", "AggregatorSpecFuncTransformer", "AggregatorSpecFuncStringRepresentation"}
      [] sort = "Splitter" -> {"Splitter"}
      [] sort = "Pair" -> {"Pair"}
      [] sort = "List:Pair" -> {"Map"}
      [] StartsWith(sort, "List:") -> {"List"}
      [] sort = "Any" -> {"FileName", "StdDescriptor", "ArgStringType", "Flag", "Option", "Operand", "AccessKind", "FileNameWithIOInfo",
            "StdDescriptorWithIOInfo", "OptionWithIO", "OptionWithIOVar", "CommandInvocationInitial", "CommandInvocationWithIO",
            "CommandInvocationPrefix", "CommandInvocationWithIOVars", "Mapper", "Aggregator", "MapperSpecSame", "MapperSpecCustom", "Splitter", "Parallelizer",
            "TransformerFlagOptionListSeq", "TransformerFlagOptionListAdd", "TransformerFlagOptionListRemove", "TransformerFlagOptionListFilter",
            "TransformerFlagOptionListEmpty", "TransformerFlagOptionListCustom", "ChainTransformerFlagOptionList",
            "AggregatorSpecNonFunc", "AggregatorSpecFuncTransformer", "AggregatorSpecFuncStringRepresentation"}
      \* arguments of the calls in Facts
      [] sort = "Texted" -> {"FileName", "FileNameWithIOInfo", "ArgStringType", "Flag", "Option", "OptionWithIO", "OptionWithIOVar", "Operand"}
      [] sort = "Thing" -> {"Flag", "Option", "OptionWithIO", "ArgStringType", "FileName", "AccessKind"}
      [] sort = "WithArg" -> {"Option", "OptionWithIO", "OptionWithIOVar"}
      [] sort = "WithInfo" -> {"OptionWithIO", "OptionWithIOVar"}
      [] sort = "AnyStd" -> {"StdDescriptor", "StdDescriptorWithIOInfo"}
      [] sort = "AnyFile" -> {"FileName", "FileNameWithIOInfo"}
      [] sort = "OneOperand" -> {"Operand"}
      [] sort = "Accessed" -> {"FileNameWithIOInfo", "StdDescriptorWithIOInfo"}
      [] sort \in {"OptMapper", "MapperM"} -> {"MapperSpecSame", "MapperSpecCustom"}
      [] sort \in {"OptAggregator", "AggregatorM"} -> {"AggregatorSpecNonFunc", "AggregatorSpecFuncTransformer", "AggregatorSpecFuncStringRepresentation"}
      [] sort = "AnyVars" -> {"CommandInvocationWithIOVars", "Mapper", "Aggregator"}
      [] sort = "Vars" -> {"CommandInvocationWithIOVars", "Mapper"}
      [] sort = "InvIO" -> {"CommandInvocationWithIO"}
      [] sort = "Plan" -> {"Parallelizer"}
      [] sort = "OptList" -> {"List"}
      [] sort = "ArgChar" -> {"C", "E", "B", "V", "Q", "X"}
      [] sort = "Setting" -> {"Setting"}
      [] OTHER -> {}

VarsSig == <<"Text", "List:FOVar", "List:ArgVar", "OptVar", "OptVar", "List:Pair">>
Sig(kind) ==
    CASE kind \in {"FileName", "ArgStringType", "Flag", "Operand"} -> <<"Text">>
      [] kind = "StdDescriptor" -> <<"Std">>
      [] kind = "AccessKind" -> <<"Kind">>
      [] kind = "Option" -> <<"Text", "Text">>
      [] kind = "FileNameWithIOInfo" -> <<"Text", "Access">>
      [] kind = "StdDescriptorWithIOInfo" -> <<"Std", "Access">>
      [] kind = "OptionWithIO" -> <<"Text", "ArgIO">>
      [] kind = "OptionWithIOVar" -> <<"Text", "ArgVar">>
      [] kind = "CommandInvocationInitial" -> <<"Text", "List:FO", "List:Operand">>
      [] kind = "CommandInvocationPrefix" -> <<"Text", "List:FO", "List:PosArg">>
      [] kind = "CommandInvocationWithIO" -> <<"Text", "List:FOIO", "List:ArgIO", "OptStd", "OptStd">>
      [] kind \in {"CommandInvocationWithIOVars", "Mapper"} -> VarsSig
      [] kind = "Aggregator" -> <<"Agg">> \o VarsSig
      [] kind \in {"TransformerFlagOptionListSeq", "TransformerFlagOptionListEmpty"} -> <<>>
      [] kind \in {"TransformerFlagOptionListAdd", "TransformerFlagOptionListCustom"} -> <<"List:FOVar">>
      [] kind \in {"TransformerFlagOptionListRemove", "TransformerFlagOptionListFilter"} -> <<"List:Text">>
      [] kind = "ChainTransformerFlagOptionList" -> <<"List:Transformer">>
      [] kind = "MapperSpecSame" -> <<"Bool">>
      [] kind = "MapperSpecCustom" -> <<"OptText", "OptTransformer", "Bool">>
      [] kind = "AggregatorSpecNonFunc" -> <<"AggPlain", "Bool">>
      [] kind = "AggregatorSpecFuncTransformer" -> <<"AggFunc", "OptTransformer", "Bool">>
      [] kind = "AggregatorSpecFuncStringRepresentation" -> <<"AggFunc", "Text", "Bool">>
      [] kind = "Splitter" -> <<"Split">>
      [] kind = "Parallelizer" -> <<"Splitter", "Mapper", "Aggregator", "OptInfo", "Var">>
      [] kind = "Pair" -> <<"Var", "Access">>
      \* arguments of the calls in Facts
      [] kind \in {"C", "E"} -> <<"Char">>
      [] kind \in {"B", "V", "X"} -> <<"Text">>
      [] kind = "Q" -> <<"List:ArgChar">>
      [] kind = "Setting" -> <<"Text", "Text">>
      [] OTHER -> <<>>

ElementSort(sort) == Drop(sort, 5)
SortOf(t, sort, i) == IF t.k \in {"List", "Map"} THEN ElementSort(sort) ELSE Sig(t.k)[i]

(* Some term of a kind, all parts some chosen leaf or node                   *)
RECURSIVE Small(_), SmallOf(_)
SmallOf(sort) == IF Leaves(sort) # {} THEN CHOOSE x \in Leaves(sort) : \A y \in Leaves(sort) : y.s = "" \/ x.s # ""
                 ELSE IF StartsWith(sort, "List:") THEN Node(CHOOSE k \in Of(sort) : TRUE, <<>>)
                 ELSE Small(CHOOSE k \in Of(sort) : TRUE)
Small(kind) == Node(kind, [i \in 1..Len(Sig(kind)) |-> SmallOf(Sig(kind)[i])])

Insert(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
Omit(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* Another node with the parts of this one, as far as its signature allows   *)
Recast(t, kind) ==
    Node(kind, [i \in 1..Len(Sig(kind)) |->
        IF i <= Len(t.ps) /\ i <= Len(Sig(t.k)) /\ Sig(t.k)[i] = Sig(kind)[i] THEN t.ps[i] ELSE SmallOf(Sig(kind)[i])])

(* All terms that differ from t in one place                                 *)
MaxList == 3
Here(t, sort) ==
    Leaves(sort)
    \cup (IF t.k \in {"List", "Map"}
          THEN LET new == { Small(k) : k \in Of(ElementSort(sort)) } \cup Leaves(ElementSort(sort))
               IN  (IF Len(t.ps) < MaxList THEN { [t EXCEPT !.ps = Insert(@, i, e)] : i \in 1..(Len(t.ps) + 1), e \in new } ELSE {})
                   \cup { [t EXCEPT !.ps = Omit(@, i)] : i \in 1..Len(t.ps) }
                   \cup { [t EXCEPT !.ps = [@ EXCEPT ![i] = t.ps[j], ![j] = t.ps[i]]] : i, j \in 1..Len(t.ps) }
          ELSE { Recast(t, k) : k \in Of(sort) })
RECURSIVE Mutants(_, _)
Mutants(t, sort) ==
    (Here(t, sort) \cup UNION { { [t EXCEPT !.ps = [@ EXCEPT ![i] = m]] : m \in Mutants(t.ps[i], SortOf(t, sort, i)) } : i \in 1..Len(t.ps) }) \ {t}

(* What constructors refuse or cannot be asked for                           *)
RECURSIVE Valid(_)
Valid(t) ==
    /\ \A i \in 1..Len(t.ps) : Valid(t.ps[i])
    /\ t.k = "Map" => \A i, j \in 1..Len(t.ps) : i # j => t.ps[i].ps[1] # t.ps[j].ps[1]
    /\ t.k = "Parallelizer" => (t.ps[1].ps[1].s = "ROUND_ROBIN_PLAIN" => t.ps[3].ps[1].s \in OrderNames)

(* The meaning of parts left out, and of the order of a map                  *)
Before(a, b) == a.ps[1].s = "1" /\ b.ps[1].s # "1"
RECURSIVE Canon(_)
Canon(t) ==
    LET ps == [i \in 1..Len(t.ps) |-> Canon(t.ps[i])]
    IN  CASE t.k = "Map" -> [t EXCEPT !.ps = SortSeq(ps, Before)]
          [] t.k \in {"MapperSpecCustom", "AggregatorSpecFuncTransformer"} ->
               [t EXCEPT !.ps = [ps EXCEPT ![2] = IF @ = None THEN Node("TransformerFlagOptionListSeq", <<>>) ELSE @]]
          [] t.k = "Parallelizer" ->
               [t EXCEPT !.ps = [ps EXCEPT ![4] = IF @ = None THEN Leaf("AdditionalInfoSplitterToMapper", "NO_ADD_INPUT") ELSE @]]
          [] OTHER -> [t EXCEPT !.ps = ps]

Equal(x, y) == Canon(x) = Canon(y)
=============================================================================
