------------------------------ MODULE ValuesMC ------------------------------
(* Pairs of values of the data types: y arises from x by changing single     *)
(* places (also back again); or both are any small values.                   *)
EXTENDS Values, Json

MaxSteps == Number(IOEnv.STEPS)

\* values of every kind, with all leaves in every place where there are few
Flat == {"FileName", "ArgStringType", "Flag", "Operand", "StdDescriptor", "AccessKind", "Splitter", "AggregatorSpecNonFunc", "MapperSpecSame"}
Filled(k) == LET one(s) == LET e == ElementSort(s) IN Node(CHOOSE c \in Of(s) : TRUE, IF Leaves(e) # {} THEN <<SmallOf(e)>> ELSE <<Small(CHOOSE c \in Of(e) : Len(Sig(c)) > 1 \/ Cardinality(Of(e)) = 1)>>)
             IN  Node(k, [i \in 1..Len(Sig(k)) |-> IF StartsWith(Sig(k)[i], "List:") /\ \E c \in Of(ElementSort(Sig(k)[i])) \cup {"Pair"} : Len(Sig(c)) > 1
                                                   THEN IF Sig(k)[i] = "List:Transformer" THEN List(<<Small("TransformerFlagOptionListAdd")>>)
                                                        ELSE IF \E c \in Of(ElementSort(Sig(k)[i])) : Len(Sig(c)) > 1 THEN one(Sig(k)[i]) ELSE SmallOf(Sig(k)[i])
                                                   ELSE SmallOf(Sig(k)[i])])
Start == { Small(k) : k \in Of("Any") } \cup { Filled(k) : k \in Of("Any") }

VARIABLES x, y, steps
Others == {None, Str("a"), Str("-a"), Num("1"), List(<<>>), List(<<Small("Flag")>>)}
Wide == { t \in Start \cup Others \cup UNION { Mutants(Small(k), "None") : k \in {"FileName", "StdDescriptor", "FileNameWithIOInfo", "StdDescriptorWithIOInfo", "Option", "AccessKind", "Splitter",
                                                        "OptionWithIO", "OptionWithIOVar", "AggregatorSpecNonFunc"} } : Valid(t) }
Init == /\ IF IOEnv.CROSS = "1" THEN x \in Wide /\ y \in Wide
           ELSE x \in { t \in Start : Valid(t) } /\ y = x
        /\ steps = 0
\* x is varied first, when deep values are sought
Vary == IOEnv.DEEP = "1" /\ x = y /\ steps < MaxSteps /\ \E t \in Pick({ m \in Mutants(x, "Any") : Valid(m) }) : x' = t /\ y' = t /\ steps' = steps + 1
Change == steps < MaxSteps /\ \E t \in Pick({ m \in Mutants(y, "Any") : Valid(m) }) : y' = t /\ x' = x /\ steps' = steps + 1
Next == Vary \/ Change

\* the laws of equality, and what is changed in one place only is not equal unless the place was left out
Laws == /\ Equal(x, x) /\ (Equal(x, y) <=> Equal(y, x))
        /\ x.k # y.k => ~Equal(x, y)
        /\ Canon(Canon(x)) = Canon(x)
Emit == PrintT("CASE " \o ToJson([x |-> x, y |-> y]))
=============================================================================
