-------------------------------- MODULE Para --------------------------------
(* The parallelization plans of an invocation.                               *)
(*                                                                           *)
(* A plan is a tuple of strings                                              *)
(*   <<splitter, mapper kind, mapper command, mapper implemented?,           *)
(*     aggregator kind, aggregator command, aggregator implemented?,         *)
(*     extra information for the mapper, number of extra streams>>           *)
(* where commands are "" if they are that of the invocation (or "cat"), and  *)
(* if they are not implemented.                                              *)
EXTENDS Text, Tables, Parser

NoPlans == [some |-> FALSE, plans |-> <<>>, comm |-> FALSE]

CC == "CONSEC_CHUNKS"
RR == "ROUND_ROBIN_PLAIN"
RRU == "ROUND_ROBIN_UNWRAP_FLAG"

Plan(split, agg, impl) == <<split, "SAME_AS_SEQ", "", "T", agg, "", impl, "no_add_input", "0">>
StatelessPlans == <<Plan(CC, "CONCATENATE", "T"), Plan(RR, "CONCATENATE", "T")>>
BothPlans(agg) == <<Plan(CC, agg, "F"), Plan(RR, agg, "F")>>

Some(plans) == [some |-> TRUE, plans |-> plans, comm |-> FALSE]
SomeComm(plans) == [some |-> TRUE, plans |-> plans, comm |-> TRUE]

-----------------------------------------------------------------------------
(* tr: sets of characters                                                    *)
OctalLen(s, i) == \* number of octal digits (at most 3) from position i on
    IF i > Len(s) \/ Ch(s, i) \notin Octals THEN 0
    ELSE IF i + 1 > Len(s) \/ Ch(s, i + 1) \notin Octals THEN 1
    ELSE IF i + 2 > Len(s) \/ Ch(s, i + 2) \notin Octals THEN 2 ELSE 3
DigitVal(c) == Code(c) - 48
RECURSIVE OctalVal(_)
OctalVal(s) == IF s = "" THEN 0 ELSE 8 * OctalVal(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))

EscapeCode(c) == CASE c = "a" -> 7 [] c = "b" -> 8 [] c = "t" -> 9 [] c = "n" -> 10
                   [] c = "v" -> 11 [] c = "f" -> 12 [] c = "r" -> 13 [] OTHER -> Code(c)

(* The elements of a set as codes; a bare "-" is -1 so ranges can be seen    *)
RECURSIVE TrElems(_, _)
TrElems(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF Ch(s, i) = "\\" /\ i < Len(s)
         THEN LET k == OctalLen(s, i + 1)
              IN  IF k > 0 THEN <<[code |-> OctalVal(SubSeq(s, i + 1, i + k)), dash |-> FALSE]>> \o TrElems(s, i + 1 + k)
                  ELSE <<[code |-> EscapeCode(Ch(s, i + 1)), dash |-> FALSE]>> \o TrElems(s, i + 2)
    ELSE <<[code |-> Code(Ch(s, i)), dash |-> Ch(s, i) = "-"]>> \o TrElems(s, i + 1)

SetHasNewline(s) ==
    \/ Contains(s, "[:space:]") \/ Contains(s, "[:cntrl:]")
    \/ LET e == TrElems(s, 1)
       IN  \/ \E k \in 1..Len(e) : e[k].code = 10
           \/ \E k \in 2..(Len(e) - 1) : e[k].dash /\ e[k - 1].code < 10 /\ 10 < e[k + 1].code

TrPlans(inv) ==
    LET n == Len(inv.ops)
        firstHas == SetHasNewline(inv.ops[1]) # HasAny(inv, {"-c"})
        lastHas == IF n = 1 THEN firstHas ELSE SetHasNewline(inv.ops[n])
    IN  IF HasAny(inv, {"-d", "-s"}) /\ n = 0 THEN NoPlans
        ELSE IF HasAny(inv, {"-d"}) /\ firstHas THEN Some(BothPlans("ADJ_LINES_MERGE"))
        ELSE IF HasAny(inv, {"-s"}) /\ (lastHas \/ firstHas) THEN Some(BothPlans("ADJ_LINES_FUNC"))
        ELSE Some(StatelessPlans)

-----------------------------------------------------------------------------
SedLineWise(script) == StartsWith(script, "s") \/ ~(Contains(script, "d") \/ Contains(script, "q"))
SedPlans(inv) ==
    LET scripts == ArgsOf(inv, "-e")
    IN  IF HasAny(inv, {"-f", "-i", "-z"}) THEN Some(<<>>)
        ELSE IF scripts = {} /\ inv.ops = <<>> THEN NoPlans
        ELSE IF \A s \in (IF scripts = {} THEN {inv.ops[1]} ELSE scripts) : SedLineWise(s) THEN Some(StatelessPlans)
        ELSE Some(<<>>)

GrepPlans(inv) ==
    IF HasAny(inv, {"-q", "-z", "-A", "-B", "-C", "-m", "-H", "-L", "-l", "-c", "-n", "-b"} \cup { "-" \o d : d \in Digits }) THEN Some(<<>>)
    ELSE Some(StatelessPlans)

RandomOrder(inv) == \/ \E a \in ArgsOf(inv, "--sort") : StartsWith("random", a)
                    \/ \E a \in ArgsOf(inv, "-k") : Contains(a, "R")
SortPlans(inv) ==
    IF HasAny(inv, {"-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"}) \/ RandomOrder(inv)
    THEN Some(<<>>)
    ELSE SomeComm(<<Plan(CC, "CUSTOM_2_ARY", "T")>>)

UniqPlans(inv) ==
    IF HasAny(inv, {"-d", "-D"}) THEN Some(<<>>)
    ELSE IF HasAny(inv, {"-c"}) THEN Some(BothPlans("ADJ_LINES_FUNC"))
    ELSE Some(BothPlans("ADJ_LINES_SEQ"))

XargsPlans(inv) == IF HasAny(inv, {"--null", "--delimiter", "-E", "-e", "-a"}) THEN Some(<<>>) ELSE Some(StatelessPlans)

StoredPlans(inv) ==
    LET c == inv.cmd
    IN  CASE c = "tr" -> TrPlans(inv)
          [] c = "sed" -> SedPlans(inv)
          [] c = "grep" -> GrepPlans(inv)
          [] c \in {"sort", "custom_sort"} -> SortPlans(inv)
          [] c = "uniq" -> UniqPlans(inv)
          [] c = "xargs" -> XargsPlans(inv)
          [] c \in {"cut", "col", "custom_tr"} -> Some(StatelessPlans)
          [] c = "set_diff" -> Some(<<Plan(CC, "CONCATENATE", "T")>>)
          [] c \in {"test_one", "test_two"} -> Some(<<Plan(CC, "CUSTOM_N_ARY", "F")>>)
          [] c = "alt_bigrams_aux" ->
               Some(<< <<CC, "CUSTOM", "alt_bigrams_aux", "T", "CUSTOM_2_ARY", "alt_bigram_aux_reduce", "T", "no_add_input", "0">> >>)
          [] c = "bigrams_aux" ->
               Some(<< <<CC, "CUSTOM", "bigram_aux_map", "T", "CUSTOM_2_ARY", "bigram_aux_reduce", "T", "no_add_input", "2">> >>)
          [] OTHER -> NoPlans

(* Plans after unpacking: an order-free round-robin copy of every chunk plan *)
(* of a commutative invocation follows the stored ones                       *)
InferredFrom(plans, comm) ==
    IF ~comm THEN plans
    ELSE plans \o LET copy(p) == [p EXCEPT ![1] = RRU]
                      cc == SelectSeq(plans, LAMBDA p : p[1] = CC)
                  IN  [k \in 1..Len(cc) |-> copy(cc[k])]
Inferred(para) == InferredFrom(para.plans, para.comm)

Implemented(p) == p[4] = "T" /\ p[7] = "T"
OrderRestoring == {"CONCATENATE", "ADJ_LINES_MERGE", "ADJ_LINES_SEQ", "ADJ_LINES_FUNC"}
PlanOk(p) == p[1] = RR => p[5] \in OrderRestoring
=============================================================================
