------------------------------ MODULE IOVarsMC ------------------------------
(* Builds an invocation over identifiers and a few plans, then works on it:  *)
(* edits, queries, mappers, aggregators.  Checks that everything stays       *)
(* consistent and prints the histories, to be replayed.                      *)
(*   WHAT = "edit" (C14), "map" (C12), "agg" (C13) or "all"                  *)
EXTENDS IOVars, Json

MaxPieces == Number(IOEnv.PIECES)
MaxOpsN == Number(IOEnv.OPS)
What == IOEnv.WHAT
Full == IOEnv.FULL = "1"
\* work begins with at least so many pieces
Least == Number(IOEnv.LEAST)

VARIABLES phase, regs, ds, ops, init
vars == <<phase, regs, ds, ops, init>>

Acc4 == {"STREAM_INPUT", "STREAM_OUTPUT", "CONFIG_INPUT", "OTHER_OUTPUT"} \cup (IF Full THEN Accesses ELSE {})
Empty == [cmd |-> "cmd", fos |-> <<>>, ops |-> <<>>, si |-> "none", so |-> "none", acc |-> {}]

Used(inv) == Len(Vars(inv))
\* identifiers are not met in the order of their numbers; 0 is one of them, or is left for the work
Fresh(n) == "v" \o ToString(IF n <= 11 THEN (5 * (n - 1)) % 11 ELSE n)

\* the plans used in histories
MapPlans == {
    PlanData("SAME", "", TSame, TRUE, "CONCATENATE", "STR", "", TSame, TRUE, 0),
    PlanData("SAME", "", TSame, FALSE, "CONCATENATE", "STR", "", TSame, TRUE, 0),
    PlanData("CUSTOM", "mapcmd", TSame, TRUE, "CONCATENATE", "STR", "", TSame, TRUE, 0),
    PlanData("CUSTOM", "", TRemove(<<"-x">>), TRUE, "CONCATENATE", "STR", "", TSame, TRUE, 0),
    PlanData("CUSTOM", "mapcmd", TAdd(<< <<"F", "-m">>, <<"F", "-x">> >>), TRUE, "CONCATENATE", "STR", "", TSame, TRUE, 0),
    PlanData("CUSTOM", "mapcmd", TEmpty, TRUE, "CONCATENATE", "STR", "", TSame, TRUE, 2),
    PlanData("CUSTOM", "mapcmd", TFilter(<<"-x", "-o">>), TRUE, "CONCATENATE", "STR", "", TSame, TRUE, 1),
    PlanData("CUSTOM_STR", "sort -rn --unique", TSame, TRUE, "CUSTOM_2_ARY", "STR", "x", TSame, TRUE, 1),
    PlanData("CUSTOM_STR", "bigram_aux_map", TSame, TRUE, "CUSTOM_2_ARY", "STR", "x", TSame, TRUE, 2),
    PlanData("CUSTOM_STR", "uniq -c", TSame, TRUE, "CUSTOM_2_ARY", "STR", "x", TSame, TRUE, 0),
    PlanData("CUSTOM_STR", "uniq -c", TSame, FALSE, "CUSTOM_2_ARY", "STR", "x", TSame, TRUE, 1) }
AggPlans ==
    { PlanData("SAME", "", TSame, TRUE, "CONCATENATE", "STR", "", TSame, TRUE, 0) }
    \cup { PlanData("SAME", "", TSame, TRUE, k, "TR", "", t, i, 0) :
             k \in {"ADJ_LINES_FUNC", "CUSTOM_2_ARY", "CUSTOM_N_ARY"}, i \in {TRUE, FALSE},
             t \in {TSame, TEmpty, TChain(<<TFilter(<<"-x", "-o">>), TAdd(<< <<"F", "-m">> >>)>>), TRemove(<<"-o">>)} }
    \cup { PlanData("SAME", "", TSame, TRUE, k, "STR", c, TSame, i, n) :
             k \in {"CUSTOM_2_ARY", "CUSTOM_N_ARY"}, c \in {"reduce", "sort -mrn"}, i \in {TRUE, FALSE}, n \in {0, 2} }
    \cup { PlanData("SAME", "", TSame, TRUE, k, "STR", "", TSame, FALSE, 0) : k \in {"ADJ_LINES_MERGE", "ADJ_LINES_SEQ"} }
Plans == CASE What = "map" -> MapPlans [] What = "agg" -> AggPlans
           [] What = "edit" -> {PlanData("SAME", "", TSame, TRUE, "CONCATENATE", "STR", "", TSame, TRUE, 0)}
           [] OTHER -> MapPlans \cup AggPlans

Init == phase = "build" /\ regs = <<Empty>> /\ ds \in { <<d>> : d \in Pick(Plans) } /\ ops = <<>> /\ init = Empty

Inv0 == regs[1]
Pieces == Len(Inv0.fos) + Len(Inv0.ops)
Put(inv) == regs' = <<inv>> /\ UNCHANGED <<phase, ds, ops, init>>
NextId == Fresh(Used(Inv0) + (IF Inv0.fos # <<>> /\ Inv0.fos[1][1] # "OV" THEN 2 ELSE 1))
Building == phase = "build" /\ Pieces < MaxPieces
AddFlag == Building /\ Inv0.ops = <<>> /\ Inv0.si = "none" /\ Inv0.so = "none"
           /\ \E n \in Pick({"-a", "-x"}) : Put([Inv0 EXCEPT !.fos = Append(@, <<"F", n>>)])
AddOptString == Building /\ Inv0.ops = <<>> /\ Inv0.si = "none" /\ Inv0.so = "none"
           /\ Put([Inv0 EXCEPT !.fos = Append(@, <<"OS", "-k", "v1">>)])
AddOptVar == Building /\ Inv0.ops = <<>> /\ Inv0.si = "none" /\ Inv0.so = "none"
           /\ \E a \in Pick(Acc4), n \in Pick({"-o", "-x"}) :
                Put([Inv0 EXCEPT !.fos = Append(@, <<"OV", n, NextId>>), !.acc = @ \cup {<<NextId, a>>}])
AddOpString == Building /\ Inv0.si = "none" /\ Inv0.so = "none" /\ Put([Inv0 EXCEPT !.ops = Append(@, <<"S", "v2">>)])
AddOpVar == Building /\ Inv0.si = "none" /\ Inv0.so = "none"
           /\ \E a \in Pick(Acc4) : Put([Inv0 EXCEPT !.ops = Append(@, <<"V", NextId>>), !.acc = @ \cup {<<NextId, a>>}])
\* a file mentioned once more
AddOpAgain == Building /\ Inv0.si = "none" /\ Inv0.so = "none"
           /\ \E v \in Pick(RangeOf(Vars(Inv0))) : Put([Inv0 EXCEPT !.ops = Append(@, <<"V", v>>)])
SetStdin == phase = "build" /\ Pieces >= Least /\ Inv0.si = "none" /\ Inv0.so = "none"
           /\ Put([Inv0 EXCEPT !.si = NextId, !.acc = @ \cup {<<NextId, "STREAM_INPUT">>}])
SetStdout == phase = "build" /\ Pieces >= Least /\ Inv0.so = "none" /\ Put([Inv0 EXCEPT !.so = NextId, !.acc = @ \cup {<<NextId, "STREAM_OUTPUT">>}])
Start == phase = "build" /\ Pieces >= Least /\ phase' = "work" /\ init' = Inv0 /\ UNCHANGED <<regs, ds, ops>>

(* Working.  Fresh identifiers are numbered by the operation                 *)
ZeroUsed == \E r \in 1..Len(regs) : "v0" \in RangeOf(Vars(regs[r]))
NewAt(k) == Fresh(100 * (Len(ops) + 1) + ((k * 61) % 101))
New(k) == IF k = 1 /\ ~ZeroUsed THEN "v0" ELSE NewAt(k)
News(n) == [k \in 1..n |-> New(k)]
NewsFrom(a, n) == [k \in 1..n |-> New(a + k)]
O(op, r) == Operation(op, r, 1, <<>>, <<>>, <<>>, "", "")
Turned(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
\* each takes the place of the one before, and the last is new
Shifted(s) == IF s = <<>> THEN <<>> ELSE Append(Tail(s), New(1))
Edits(r) ==
    LET inv == regs[r]
        i == Len(InVars(inv))
        o == Len(OutVars(inv))
    IN  { [O("substin", r) EXCEPT !.ids = News(k)] : k \in {i, i + 1, IF i > 0 THEN i - 1 ELSE 0} }
        \cup { [O("substin", r) EXCEPT !.ids = InVars(inv)] }
        \cup { [O("substout", r) EXCEPT !.ids = News(k)] : k \in {o, o + 1, IF o > 0 THEN o - 1 ELSE 0} }
        \cup { [O("substboth", r) EXCEPT !.ids = News(i), !.ids2 = NewsFrom(50, o)] }
        \cup { [O("replace", r) EXCEPT !.x = v, !.y = New(1)] : v \in RangeOf(Vars(inv)) \cup {"v77"} }
        \cup { [O("replace", r) EXCEPT !.x = v, !.y = w] : v \in RangeOf(Vars(inv)), w \in RangeOf(Vars(inv)) }
        \cup { [O("substin", r) EXCEPT !.ids = s] : s \in { Turned(InVars(inv)), Shifted(InVars(inv)), [k \in 1..i |-> New(1)] } }
        \cup { [O("substout", r) EXCEPT !.ids = s] : s \in { Turned(OutVars(inv)), Shifted(OutVars(inv)) } }
        \cup { [O("substboth", r) EXCEPT !.ids = SubSeq(s, 1, i), !.ids2 = SubSeq(s, i + 1, i + o)] :
                  s \in { Turned(InVars(inv) \o OutVars(inv)), Shifted(InVars(inv) \o OutVars(inv)) } }
        \cup { O(q, r) : q \in {"removein", "removeout", "inputs", "outputs", "other"} }
        \cup { [O("select", r) EXCEPT !.x = s] : s \in DOMAIN Selections \cup {"option"} }
\* the streams may also be those which the invocation has already
Own(inv) == InVars(inv) # <<>> /\ OutVars(inv) # <<>>
Maps(r) == (IF Own(regs[r]) THEN { [O("map", r) EXCEPT !.x = OutVars(regs[r])[1], !.y = InVars(regs[r])[1], !.ids = NewsFrom(2, k)] : k \in {0, 1} } ELSE {})
           \cup (IF Own(regs[r]) THEN { [O("map", r) EXCEPT !.x = InVars(regs[r])[1], !.y = OutVars(regs[r])[1], !.ids = NewsFrom(2, k)] : k \in {0, 2} } ELSE {}) \cup { [O("map", r) EXCEPT !.x = New(1), !.y = New(2), !.ids = NewsFrom(2, k)] : k \in {0, 1, 2} }
           \cup { [O("map", r) EXCEPT !.x = New(2), !.y = New(1), !.ids = NewsFrom(2, k)] : k \in {0, 1} }
           \cup { [O("map", r) EXCEPT !.x = New(2), !.y = New(3), !.ids = <<New(1)>>] }
Aggs(r) == { [O("agg", r) EXCEPT !.ids = News(k), !.y = New(50)] : k \in (0..3) \cup {5} \cup (IF Full THEN {17} ELSE {}) }
           \cup { [O("agg", r) EXCEPT !.ids = NewsFrom(1, k), !.y = New(1)] : k \in 0..2 }
           \cup { a \in { [O("agg", r) EXCEPT !.ids = <<New(2), New(3), New(2)>>, !.y = New(1)], [O("agg", r) EXCEPT !.ids = <<New(2), New(2)>>, !.y = New(4)] } :
                    \* a command with changed flags reads from different streams
                    ds[1].ahow = "STR" \/ ds[1].ak = "CONCATENATE" }
           \cup (IF Own(regs[r]) THEN { [O("agg", r) EXCEPT !.ids = <<InVars(regs[r])[1]>> \o News(k), !.y = OutVars(regs[r])[1]] : k \in 0..2 } ELSE {})
           \cup { [O("agg2", r) EXCEPT !.ids = News(a + 1), !.ids2 = NewsFrom(10, b + 1), !.ids3 = NewsFrom(20, c + 1)] :
                    a \in {0, 2}, b \in {0, 2}, c \in {0, 1, 2} }
\* an unimplemented plan is not asked for a two-input aggregator with auxiliary streams
Choices(r) == CASE What = "edit" -> Edits(r)
                [] What = "map" -> Maps(r) \cup { e \in Edits(r) : e.op \in {"removein", "replace"} /\ Len(ops) > 0 }
                [] What = "agg" -> { a \in Aggs(r) : a.op = "agg2" => ds[1].aimpl /\ ds[1].ak = "CUSTOM_2_ARY" }
                                   \cup { e \in Edits(r) : e.op \in {"removein", "replace"} /\ Len(ops) > 0 }
                [] OTHER -> Edits(r) \cup Maps(r) \cup { a \in Aggs(r) : a.op = "agg2" => ds[1].aimpl }
\* what is given means two different things at once
ClearOf(before, after, o) ==
    LET given == RangeOf(o.ids) \cup RangeOf(o.ids2) \cup RangeOf(o.ids3) \cup {o.x, o.y}
    IN  \A k \in 1..Len(after) : Cardinality(after[k].acc) = Cardinality(Recorded(after[k])) \/ given \cap Recorded(before[o.r]) = {}
Work == /\ phase = "work" /\ Len(ops) < MaxOpsN
        /\ \E r \in Pick(1..Len(regs)) : \E o \in Pick(Choices(r)) :
             LET s == Step(regs, ds, o)
             IN  /\ ClearOf(regs, s.regs, o)
                 /\ ops' = Append(ops, o)
                 /\ phase' = IF s.ok THEN "work" ELSE "end"
                 /\ regs' = s.regs /\ UNCHANGED <<ds, init>>
Next == AddFlag \/ AddOptString \/ AddOptVar \/ AddOpString \/ AddOpVar \/ AddOpAgain \/ SetStdin \/ SetStdout \/ Start \/ Work

AllConsistent == \A r \in 1..Len(regs) : Consistent(regs[r])
\* what edits cannot change
Shape(inv) == << inv.cmd, SelectSeq(inv.fos, LAMBDA e : e[1] # "OV"), SelectSeq(inv.ops, LAMBDA e : e[1] = "S") >>
ShapeKept == [][phase = "work" => \A r \in 1..Len(regs) : Shape(regs'[r]) = Shape(regs[r])]_vars
\* at most one invocation changes, the others stay as they are
OneAtATime == [][phase = "work" => Cardinality({ r \in 1..Len(regs) : regs'[r] # regs[r] }) <= 1]_vars
\* a mapper reads and writes what it is given
Given == [][phase = "work" /\ ops' # ops /\ ops'[Len(ops')].op = "map" /\ Len(regs') > Len(regs) =>
              LET o == ops'[Len(ops')] m == regs'[Len(regs')]
              IN  /\ o.x \in RangeOf(InVars(m)) /\ o.y \in RangeOf(OutVars(m)) /\ RangeOf(o.ids) \subseteq RangeOf(OutVars(m))
                  /\ o.ids = <<>> => InVars(m) = <<o.x>> /\ OutVars(m) = <<o.y>>]_vars
Combined == [][phase = "work" /\ ops' # ops /\ ops'[Len(ops')].op = "agg" /\ Len(regs') > Len(regs) =>
              LET o == ops'[Len(ops')] m == regs'[Len(regs')]
              IN  InVars(m) = o.ids /\ OutVars(m) = <<o.y>> /\ m.so = o.y]_vars

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Out(inv) == [inv EXCEPT !.acc = SetToSeq(@)]
Emit == phase \in {"work", "end"} /\ (phase = "end" \/ Len(ops) = MaxOpsN)
          => PrintT("CASE " \o ToJson([init |-> Out(init), ds |-> ds, ops |-> ops]))
=============================================================================
