------------------------------- MODULE IOVars -------------------------------
(* Invocations whose files and streams are named by identifiers, how they    *)
(* are edited, and how mappers and aggregators are made from them.           *)
(*                                                                           *)
(* An invocation is a record                                                 *)
(*   cmd                                                                     *)
(*   fos : entries <<"F", name>>, <<"OV", name, id>>, <<"OS", name, string>>  *)
(*   ops : entries <<"V", id>>, <<"S", string>>                              *)
(*   si, so : the implicitly used input and output, an id or "none"          *)
(*   acc : the set of pairs <<id, access>>                                   *)
EXTENDS Text, Transformers, Parser, IOInfo, Para

AccOf(inv, id) == (CHOOSE p \in inv.acc : p[1] = id)[2]
Recorded(inv) == { p[1] : p \in inv.acc }

OptVars(fos) == LET o == SelectSeq(fos, LAMBDA e : e[1] = "OV") IN [k \in 1..Len(o) |-> o[k][3]]
OpVars(ops) == LET o == SelectSeq(ops, LAMBDA e : e[1] = "V") IN [k \in 1..Len(o) |-> o[k][2]]
Implicit(x) == IF x = "none" THEN <<>> ELSE <<x>>
\* all identifiers mentioned, in the order of traversal
Vars(inv) == OptVars(inv.fos) \o OpVars(inv.ops) \o Implicit(inv.si) \o Implicit(inv.so)

Consistent(inv) == /\ RangeOf(Vars(inv)) = Recorded(inv)
                   /\ Cardinality(inv.acc) = Cardinality(Recorded(inv))

WithAccess(inv, a) == SelectSeq(Vars(inv), LAMBDA v : v \in Recorded(inv) /\ AccOf(inv, v) \in a)
InVars(inv) == WithAccess(inv, {"STREAM_INPUT"})
OutVars(inv) == WithAccess(inv, {"STREAM_OUTPUT"})

\* ren: a function from identifiers to identifiers
Ren(ren, id) == IF id \in DOMAIN ren THEN ren[id] ELSE id
Rename(inv, ren) ==
    [inv EXCEPT !.fos = [k \in 1..Len(@) |-> IF @[k][1] = "OV" THEN <<"OV", @[k][2], Ren(ren, @[k][3])>> ELSE @[k]],
                !.ops = [k \in 1..Len(@) |-> IF @[k][1] = "V" THEN <<"V", Ren(ren, @[k][2])>> ELSE @[k]],
                !.si = Ren(ren, @), !.so = Ren(ren, @),
                !.acc = { <<Ren(ren, p[1]), p[2]>> : p \in @ }]
Replacing(olds, news) == [id \in RangeOf(olds) |-> news[CHOOSE k \in 1..Len(olds) : olds[k] = id]]
\* only what is still mentioned is recorded
Prune(inv) == [inv EXCEPT !.acc = { p \in @ : p[1] \in RangeOf(Vars(inv)) }]
Without(inv, a) == \* drop all streams with this access
    LET gone == RangeOf(WithAccess(inv, {a}))
    IN  Prune([inv EXCEPT !.fos = SelectSeq(@, LAMBDA e : ~(e[1] = "OV" /\ e[3] \in gone)),
                          !.ops = SelectSeq(@, LAMBDA e : ~(e[1] = "V" /\ e[2] \in gone)),
                          !.si = IF @ \in gone THEN "none" ELSE @,
                          !.so = IF @ \in gone THEN "none" ELSE @])

Ok(inv) == [ok |-> TRUE, inv |-> inv]
No(inv) == [ok |-> FALSE, inv |-> inv]

(* Edits.  Streams are substituted all at once, mention by mention; what is  *)
(* given may be among them, or be given repeatedly.                          *)
Mentions(inv, n, a) == Cardinality({ k \in 1..n : AccOf(inv, Vars(inv)[k]) = a })
Renumber(inv, ids) == \* the k-th mention becomes ids[k]
    LET no == Len(OptVars(inv.fos))
        np == no + Len(OpVars(inv.ops))
        ni == np + Len(Implicit(inv.si))
    IN  [inv EXCEPT !.fos = [k \in 1..Len(@) |-> IF @[k][1] = "OV" THEN <<"OV", @[k][2], ids[Len(OptVars(SubSeq(@, 1, k)))]>> ELSE @[k]],
                    !.ops = [k \in 1..Len(@) |-> IF @[k][1] = "V" THEN <<"V", ids[no + Len(OpVars(SubSeq(@, 1, k)))]>> ELSE @[k]],
                    !.si = IF @ = "none" THEN "none" ELSE ids[np + 1],
                    !.so = IF @ = "none" THEN "none" ELSE ids[ni + 1],
                    !.acc = { <<ids[k], AccOf(inv, Vars(inv)[k])>> : k \in 1..Len(ids) }]
Subst(inv, ins, outs) ==
    LET v == Vars(inv)
    IN  IF Len(ins) # Len(InVars(inv)) \/ Len(outs) # Len(OutVars(inv)) THEN No(inv)
        ELSE Ok(Renumber(inv, [k \in 1..Len(v) |-> CASE AccOf(inv, v[k]) = "STREAM_INPUT" -> ins[Mentions(inv, k, "STREAM_INPUT")]
                                                      [] AccOf(inv, v[k]) = "STREAM_OUTPUT" -> outs[Mentions(inv, k, "STREAM_OUTPUT")]
                                                      [] OTHER -> v[k]]))
SubstIn(inv, ids) == Subst(inv, ids, OutVars(inv))
SubstOut(inv, ids) == Subst(inv, InVars(inv), ids)
SubstBoth(inv, ins, outs) == Subst(inv, ins, outs)
Replace(inv, from, to) == Ok(Rename(inv, Replacing(<<from>>, <<to>>)))

(* Queries                                                                   *)
QInputs(inv) == InVars(inv)
QOutputs(inv) == WithAccess(inv, Outputs)
QOther(inv) == WithAccess(inv, {"OTHER_OUTPUT"}) # <<>>
\* the operands (or, for "option", the options) with an access; a string configures
Selections == [config_input |-> "CONFIG_INPUT", stream_input |-> "STREAM_INPUT", other_input |-> "OTHER_INPUT",
               stream_output |-> "STREAM_OUTPUT", other_output |-> "OTHER_OUTPUT"]
QSelect(inv, role) ==
    IF role = "option" THEN LET o == SelectSeq(inv.fos, LAMBDA e : e[1] = "OV" /\ AccOf(inv, e[3]) = "OTHER_OUTPUT")
                            IN  [k \in 1..Len(o) |-> o[k][2] \o " " \o o[k][3]]
    ELSE LET o == SelectSeq(inv.ops, LAMBDA e : IF e[1] = "S" THEN role = "config_input" ELSE AccOf(inv, e[2]) = Selections[role])
         IN  [k \in 1..Len(o) |-> o[k][1] \o " " \o o[k][2]]

-----------------------------------------------------------------------------
(* A plan as data: how its mapper and its aggregator are made.               *)
(*   mk    : "SAME", "CUSTOM" (mcmd or that of the invocation, mt) or        *)
(*           "CUSTOM_STR" (command and flags of the line mcmd)               *)
(*   mimpl, aimpl : implemented?                                             *)
(*   ak    : "CONCATENATE", "ADJ_LINES_MERGE", "ADJ_LINES_SEQ",              *)
(*           "ADJ_LINES_FUNC", "CUSTOM_2_ARY", "CUSTOM_N_ARY"                 *)
(*   ahow  : "TR" (at) or "STR" (command and flags of the line acmd)         *)
(*   naux  : number of streams from mapper to aggregator                     *)
PlanData(mk, mcmd, mt, mimpl, ak, ahow, acmd, at, aimpl, naux) ==
    [mk |-> mk, mcmd |-> mcmd, mt |-> mt, mimpl |-> mimpl, ak |-> ak, ahow |-> ahow, acmd |-> acmd, at |-> at,
     aimpl |-> aimpl, naux |-> naux]

Nothing(inv) == [ok |-> TRUE, some |-> FALSE, inv |-> inv]
Made(inv) == [ok |-> TRUE, some |-> TRUE, inv |-> inv]
Fails(inv) == [ok |-> FALSE, some |-> FALSE, inv |-> inv]

MapperBase(d, inv) ==
    CASE d.mk = "SAME" -> inv
      [] d.mk = "CUSTOM" -> Prune([inv EXCEPT !.cmd = IF d.mcmd = "" THEN @ ELSE d.mcmd, !.fos = Transform(d.mt, @)])
      [] d.mk = "CUSTOM_STR" -> LET p == ParseLine(d.mcmd).inv IN Prune([inv EXCEPT !.cmd = p.cmd, !.fos = p.fos])

Mapper(d, inv, in, out, aux) ==
    LET b == MapperBase(d, inv)
        s == SubstBoth(b, <<in>>, <<out>>)
        ids == <<in, out>> \o aux
    IN  IF Len(aux) # d.naux THEN Fails(inv)
        ELSE IF ~d.mimpl THEN Nothing(inv)
        ELSE IF aux = <<>> THEN IF s.ok THEN Made(s.inv) ELSE Fails(inv)
        ELSE IF \E e \in RangeOf(inv.ops) : e[1] = "S" THEN Fails(inv)
        ELSE Made([b EXCEPT !.ops = [k \in 1..Len(ids) |-> <<"V", ids[k]>>], !.si = "none", !.so = "none",
                            !.acc = { p \in @ : p[1] \in RangeOf(OptVars(b.fos)) }
                                    \cup { <<in, "STREAM_INPUT">> } \cup { <<id, "STREAM_OUTPUT">> : id \in {out} \cup RangeOf(aux) }])

Arity(k) == CASE k = "ADJ_LINES_FUNC" -> {1} [] k = "CUSTOM_2_ARY" -> {2} [] OTHER -> 0..100

Reads(cmd, fos, acc, ins, out) ==
    [cmd |-> cmd, fos |-> fos, ops |-> [k \in 1..Len(ins) |-> <<"V", ins[k]>>], si |-> "none", so |-> out,
     acc |-> acc \cup { <<id, "STREAM_INPUT">> : id \in RangeOf(ins) } \cup { <<out, "STREAM_OUTPUT">> }]

Aggregator(d, inv, ins, out) ==
    IF ~d.aimpl THEN Nothing(inv)
    ELSE IF d.ak = "CONCATENATE" THEN Made(Reads("cat", <<>>, {}, ins, out))
    ELSE IF Len(ins) \notin Arity(d.ak) \/ d.ak \in {"ADJ_LINES_MERGE", "ADJ_LINES_SEQ"} THEN Fails(inv)
    ELSE IF d.ahow = "STR"
    THEN IF d.ak = "ADJ_LINES_FUNC" THEN Fails(inv)
         ELSE LET p == ParseLine(d.acmd).inv IN Made(Reads(p.cmd, p.fos, {}, ins, out))
    ELSE LET kept == Without(Without(Prune([inv EXCEPT !.fos = Transform(d.at, @)]), "STREAM_INPUT"), "STREAM_OUTPUT")
         IN  Made(Reads(inv.cmd, kept.fos, { p \in kept.acc : p[1] \in RangeOf(OptVars(kept.fos)) }, ins, out))

\* two inputs with the auxiliary streams of their mappers
Aggregator2(d, inv, in1, aux1, in2, aux2, out, auxout) ==
    LET p == ParseLine(d.acmd).inv
        ins == <<in1>> \o aux1 \o <<in2>> \o aux2
        ids == ins \o <<out>> \o auxout
    IN  IF d.ak \in {"CONCATENATE", "ADJ_LINES_MERGE", "ADJ_LINES_SEQ"} \/ d.ahow # "STR" \/ Len(aux1) # Len(aux2) \/ Len(aux1) # Len(auxout) THEN Fails(inv)
        ELSE Made([cmd |-> p.cmd, fos |-> p.fos, ops |-> [k \in 1..Len(ids) |-> <<"V", ids[k]>>], si |-> "none", so |-> "none",
                   acc |-> { <<id, "STREAM_INPUT">> : id \in RangeOf(ins) }
                           \cup { <<id, "STREAM_OUTPUT">> : id \in {out} \cup RangeOf(auxout) }])

-----------------------------------------------------------------------------
(* A history works on numbered invocations ("registers").  Edits change one  *)
(* of them, queries none, map and agg add a new one if they make something.  *)
(* An operation is a record [op, r, d, ids, ids2, ids3, x, y].               *)
TF(b) == IF b THEN "T" ELSE "F"
Step(regs, ds, o) ==
    LET inv == regs[o.r]
        edit(r) == [ok |-> r.ok, regs |-> IF r.ok THEN [regs EXCEPT ![o.r] = r.inv] ELSE regs, ret |-> <<>>]
        query(ret) == [ok |-> TRUE, regs |-> regs, ret |-> ret]
        make(r, ret) == [ok |-> r.ok, regs |-> IF r.some THEN Append(regs, r.inv) ELSE regs,
                         ret |-> IF r.some THEN ret ELSE <<"nothing">>]
    IN  CASE o.op = "substin" -> edit(SubstIn(inv, o.ids))
          [] o.op = "substout" -> edit(SubstOut(inv, o.ids))
          [] o.op = "substboth" -> edit(SubstBoth(inv, o.ids, o.ids2))
          [] o.op = "replace" -> edit(Replace(inv, o.x, o.y))
          [] o.op = "removein" -> edit(Ok(Without(inv, "STREAM_INPUT")))
          [] o.op = "removeout" -> edit(Ok(Without(inv, "STREAM_OUTPUT")))
          [] o.op = "inputs" -> query(QInputs(inv))
          [] o.op = "outputs" -> query(QOutputs(inv))
          [] o.op = "other" -> query(<<TF(QOther(inv))>>)
          [] o.op = "select" -> query(QSelect(inv, o.x))
          [] o.op = "map" -> make(Mapper(ds[o.d], inv, o.x, o.y, o.ids), <<"mapper">>)
          [] o.op = "agg" -> make(Aggregator(ds[o.d], inv, o.ids, o.y), <<ds[o.d].ak>>)
          [] o.op = "agg2" -> make(Aggregator2(ds[o.d], inv, o.ids[1], Tail(o.ids), o.ids2[1], Tail(o.ids2), o.ids3[1], Tail(o.ids3)),
                                   <<ds[o.d].ak>>)

Operation(op, r, d, ids, ids2, ids3, x, y) ==
    [op |-> op, r |-> r, d |-> d, ids |-> ids, ids2 |-> ids2, ids3 |-> ids3, x |-> x, y |-> y]

-----------------------------------------------------------------------------
(* The invocation with identifiers of annotated commands: v0, v1, ... in the *)
(* order of traversal.                                                       *)
Id(k) == "v" \o ToString(k - 1)
FileOpts(fos, k) == Cardinality({ j \in 1..k : fos[j][1] = "O" /\ fos[j][3] # "STR" })
FileOps(ops, k) == Cardinality({ j \in 1..k : ops[j][1] # "STR" })
WithVars(cmd, info) ==
    LET fos == info.fos
        ops == info.ops
        n1 == FileOpts(fos, Len(fos))
        n2 == n1 + FileOps(ops, Len(ops))
        n3 == n2 + (IF info.si = "none" THEN 0 ELSE 1)
    IN  [cmd |-> cmd,
         fos |-> [k \in 1..Len(fos) |-> IF fos[k][1] = "F" THEN fos[k]
                                        ELSE IF fos[k][3] = "STR" THEN <<"OS", fos[k][2], fos[k][4]>>
                                        ELSE <<"OV", fos[k][2], Id(FileOpts(fos, k))>>],
         ops |-> [k \in 1..Len(ops) |-> IF ops[k][1] = "STR" THEN <<"S", ops[k][2]>> ELSE <<"V", Id(n1 + FileOps(ops, k))>>],
         si |-> IF info.si = "none" THEN "none" ELSE Id(n3),
         so |-> IF info.so = "none" THEN "none" ELSE Id(n3 + 1),
         acc |-> { <<Id(FileOpts(fos, k)), fos[k][5]>> : k \in { j \in 1..Len(fos) : fos[j][1] = "O" /\ fos[j][3] # "STR" } }
                 \cup { <<Id(n1 + FileOps(ops, k)), ops[k][3]>> : k \in { j \in 1..Len(ops) : ops[j][1] # "STR" } }
                 \cup (IF info.si = "none" THEN {} ELSE { <<Id(n3), info.si>> })
                 \cup (IF info.so = "none" THEN {} ELSE { <<Id(n3 + 1), info.so>> })]

(* The plans of Para as data                                                 *)
SortOrderFlags == <<"-b", "-d", "-f", "-g", "-i", "-M", "-h", "-n", "-r", "--sort", "-V", "-k", "-t">>
DataOf(cmd, p) ==
    LET t == TChain(<<TFilter(SortOrderFlags), TAdd(<< <<"F", "-m">> >>)>>)
        naux == Number(p[9])
    IN  PlanData(IF p[2] = "CUSTOM" THEN "CUSTOM_STR" ELSE "SAME", p[3], TSame, p[4] = "T",
                 p[5], IF cmd \in {"sort", "custom_sort"} THEN "TR" ELSE "STR", p[6], t, p[7] = "T", naux)
=============================================================================
