------------------------------ MODULE Dataflow ------------------------------
(* Running a command in parallel: the input is cut into parts at ends of     *)
(* lines, a mapper runs on every part and an aggregator combines the results.*)
(*                                                                           *)
(* A dataflow plan is a record                                               *)
(*   split  : how the input is cut                                           *)
(*   kind   : the kind of the aggregator                                     *)
(*   mapper : [ok, inv], reading stream in1 and writing out                  *)
(*   aggs   : [ok, inv] of the aggregator of 1, 2 and 3 streams in1, in2, .. *)
(*   naux   : number of additional streams; then aggs has just the one with  *)
(*            two inputs and their additional streams auxIJ                  *)
EXTENDS Catalog

(* Helpers with additional streams, as PaSh has them: bigram_aux_map writes  *)
(* the pairs of neighbouring lines, the first and the last line;             *)
(* bigram_aux_reduce joins two of these.                                     *)
RECURSIVE Pairs(_)
Pairs(ls) == IF Len(ls) < 2 THEN "" ELSE ls[1] \o " " \o ls[2] \o "\n" \o Pairs(Tail(ls))
Bigrams(s) == Pairs(LinesOf(s))
FirstLine(s) == IF s = "" THEN "" ELSE LinesOf(s)[1] \o "\n"
LastLine(s) == IF s = "" THEN "" ELSE Last(LinesOf(s)) \o "\n"

\* what the streams "out", "aux00", ... get, for a command over named streams with these contents
Operand(inv, k) == IF k <= Len(inv.ops) THEN inv.ops[k][2] ELSE "?"
Put(store, ids, texts) == [id \in DOMAIN store \cup RangeOf(ids) |->
                             IF id \in RangeOf(ids) THEN texts[CHOOSE k \in 1..Len(ids) : ids[k] = id] ELSE store[id]]
Get(store, id) == IF id \in DOMAIN store THEN store[id] ELSE "?"

Known(inv) == inv.cmd \in Modelled \cup {"bigrams_aux", "bigram_aux_map", "bigram_aux_reduce"}
AuxCommand(inv) == inv.cmd \in {"bigram_aux_map", "bigram_aux_reduce"}
Execute(inv, store, names) ==
    CASE inv.cmd = "bigram_aux_map" ->
           LET s == Get(store, Operand(inv, 1))
           IN  Put(store, <<Operand(inv, 2), Operand(inv, 3), Operand(inv, 4)>>, <<Bigrams(s), FirstLine(s), LastLine(s)>>)
      [] inv.cmd = "bigram_aux_reduce" ->
           LET g(k) == Get(store, Operand(inv, k))
               between == IF g(3) = "" \/ g(5) = "" THEN "" ELSE LinesOf(g(3))[1] \o " " \o g(5)
           IN  Put(store, <<Operand(inv, 7), Operand(inv, 8), Operand(inv, 9)>>,
                   <<g(1) \o between \o g(4), IF g(2) = "" THEN g(5) ELSE g(2), IF g(6) = "" THEN g(3) ELSE g(6)>>)
      [] inv.cmd = "bigrams_aux" -> Put(store, <<"out">>, <<Bigrams(Get(store, Read(inv)[1]))>>)
      [] OTHER -> Put(store, <<"out">>, <<RunOn(inv, store, names)>>)

\* it reads and writes just these streams, in this order
Streams(inv, ins, outs) == /\ InVars(inv) = ins
                           /\ OutVars(inv) = outs
                           /\ AuxCommand(inv) \/ \A e \in RangeOf(inv.ops) : e[1] = "V" => ~(e[2] = "out")

(* What a stream is called in the output of the command                      *)
NameIn(inv, id, name) == IF inv.si = id THEN "(standard input)" ELSE name

Output1(inv, s, name) == Execute(inv, ("in1" :> s), ("in1" :> NameIn(inv, "in1", name)))["out"]
Sequential(inv, s) == Output1(inv, s, "file")
Mapped(p, s, i) == Output1(p.mapper.inv, s, "part" \o ToString(i))
Combined2(p, a, b) == Execute(p.aggs[2].inv, ("in1" :> a) @@ ("in2" :> b), ("in1" :> "o1") @@ ("in2" :> "o2"))["out"]
Combined1(p, a) == Execute(p.aggs[1].inv, ("in1" :> a), ("in1" :> "o1"))["out"]
Combined3(p, a, b, c) == Execute(p.aggs[3].inv, ("in1" :> a) @@ ("in2" :> b) @@ ("in3" :> c), ("in1" :> "o1") @@ ("in2" :> "o2") @@ ("in3" :> "o3"))["out"]

\* with additional streams: a result is a triple
MappedAux(p, s) == LET r == Execute(p.mapper.inv, ("in1" :> s), ("in1" :> "part")) IN <<Get(r, "out"), Get(r, "aux00"), Get(r, "aux01")>>
CombinedAux(p, a, b) ==
    LET r == Execute(p.aggs[1].inv, ("in1" :> a[1]) @@ ("aux10" :> a[2]) @@ ("aux11" :> a[3]) @@ ("in2" :> b[1]) @@ ("aux20" :> b[2]) @@ ("aux21" :> b[3]),
                     ("in1" :> "o1"))
    IN  <<Get(r, "out"), Get(r, "aux00"), Get(r, "aux01")>>

Associative(p) == p.kind = "CUSTOM_2_ARY"   \* combines two at a time

-----------------------------------------------------------------------------
(* A plan must be able to run                                                *)
Runnable(p) ==
    /\ p.mapper.ok /\ Known(p.mapper.inv)
    /\ IF p.naux = 2
       THEN /\ Streams(p.mapper.inv, <<"in1">>, <<"out", "aux00", "aux01">>)
            /\ p.aggs[1].ok /\ Known(p.aggs[1].inv)
            /\ Streams(p.aggs[1].inv, <<"in1", "aux10", "aux11", "in2", "aux20", "aux21">>, <<"out", "aux00", "aux01">>)
       ELSE /\ p.naux = 0
            /\ Streams(p.mapper.inv, <<"in1">>, <<"out">>)
            /\ p.aggs[2].ok /\ Known(p.aggs[2].inv) /\ Streams(p.aggs[2].inv, <<"in1", "in2">>, <<"out">>)
            /\ IF Associative(p) THEN TRUE
               ELSE /\ p.aggs[1].ok /\ p.aggs[3].ok /\ Known(p.aggs[1].inv) /\ Known(p.aggs[3].inv)
                    /\ Streams(p.aggs[1].inv, <<"in1">>, <<"out">>)
                    /\ Streams(p.aggs[3].inv, <<"in1", "in2", "in3">>, <<"out">>)

(* A text is a pair of its lines and whether the last one is terminated      *)
Written(t) == Unlines2(t[1], t[2])
TextsOver(L, n) == { <<ls, nl>> : ls \in SeqsOver(L, n), nl \in BOOLEAN } \ { <<ls, FALSE>> : ls \in { m \in SeqsOver(L, n) : m = <<>> \/ (m # <<>> /\ Last(m) = "") } }
Part(t, i, j) == IF i > j THEN <<<<>>, TRUE>> ELSE <<SubSeq(t[1], i, j), t[2] \/ j < Len(t[1])>>
\* the lines given to the first and the second worker; w: a function from positions to workers
Given(t, w, who) == LET ks == SelectSeq([k \in 1..Len(t[1]) |-> k], LAMBDA k : w[k] = who)
                    IN  <<[k \in 1..Len(ks) |-> t[1][ks[k]]], t[2] \/ ks = <<>> \/ Last(ks) < Len(t[1])>>
=============================================================================
