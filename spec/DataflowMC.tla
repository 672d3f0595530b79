----------------------------- MODULE DataflowMC -----------------------------
(* A parallelized command at work: a text is written, cut into parts as the  *)
(* plan says, the parts are mapped and results are combined in any order.    *)
(* Whatever happens, the final result is that of the sequential command      *)
(* (for the specification's own plans, but for the suspicious invocations).  *)
(* Every finished behaviour is printed, to be replayed with the plans of the *)
(* real code and the real commands.                                          *)
EXTENDS Dataflow, Json, SequencesExt

MaxFos == Number(IOEnv.MAXFOS)
MaxLines == Number(IOEnv.LINES)
MaxParts == Number(IOEnv.PARTS)

(* The plans of the specification *)
Base(i) == Named(i)
OfPlan(d, split, i) ==
    LET m == Mapper(d, Base(i), "in1", "out", <<>>)
        a(ins) == LET r == Aggregator(d, Base(i), ins, "out") IN [ok |-> r.ok /\ r.some, inv |-> r.inv]
    IN  [split |-> split, kind |-> d.ak, naux |-> 0, mapper |-> [ok |-> m.ok /\ m.some, inv |-> m.inv],
         aggs |-> <<a(<<"in1">>), a(<<"in1", "in2">>), a(<<"in1", "in2", "in3">>)>>]
PlansOf(i) == LET p == SelectSeq(Inferred(StoredPlans(i)), LAMBDA q : Implemented(q))
              IN  [k \in 1..Len(p) |-> OfPlan(DataOf(i.cmd, p[k]), p[k][1], i)]

(* lines: the text; slots: the parts and results, <<"todo" or "done", text, positions of its lines>> *)
VARIABLES phase, inv, plan, lines, nl, slots, order, parts
vars == <<phase, inv, plan, lines, nl, slots, order, parts>>

Init == /\ phase = "command" /\ plan = 0 /\ lines = <<>> /\ nl = TRUE /\ slots = <<>> /\ order = <<>> /\ parts = <<>>
        /\ inv \in { [cmd |-> c, fos |-> <<>>, ops |-> o] : c \in Modelled, o \in UNION {Operands(x) : x \in Modelled} }
        /\ inv.ops \in Operands(inv.cmd)

AddPiece == /\ phase = "command" /\ Len(inv.fos) < MaxFos
            /\ \E e \in Pick(Pieces0(inv.cmd)) : inv' = [inv EXCEPT !.fos = Append(@, e)]
            /\ UNCHANGED <<phase, plan, lines, nl, slots, order, parts>>
ChoosePlan == /\ phase = "command" /\ Valid(inv) /\ ~Suspicious(inv) /\ OneStream(inv)
              /\ \E k \in Pick(1..Len(PlansOf(inv))) : plan' = k
              /\ phase' = "text" /\ UNCHANGED <<inv, lines, nl, slots, order, parts>>
AddLine == /\ phase = "text" /\ Len(lines) < MaxLines
           /\ \E x \in Pick(LinesFor(inv.cmd)) : lines' = Append(lines, x)
           /\ UNCHANGED <<phase, inv, plan, nl, slots, order, parts>>
ThePlan == PlansOf(inv)[plan]
TheSeq == Sequential(Base(inv), Unlines2(lines, nl))
PartOf(ks) == Unlines2([k \in 1..Len(ks) |-> lines[ks[k]]], nl \/ ks = <<>> \/ Last(ks) < Len(lines))
Positions(w, who) == SelectSeq([k \in 1..Len(lines) |-> k], LAMBDA k : w[k] = who)
\* w tells which part a line goes to: to consecutive ones unless order does not matter
CutText == /\ phase = "text"
       /\ \E b \in Pick(BOOLEAN), n \in Pick(2..MaxParts) : \E w \in Pick([1..Len(lines) -> 1..n]) :
            /\ b \/ (lines # <<>> /\ Last(lines) # "")
            /\ ThePlan.split = RRU \/ \A j, k \in 1..Len(lines) : j < k => w[j] <= w[k]
            /\ nl' = b
            /\ slots' = [i \in 1..n |-> <<"todo", Positions(w, i)>>]
            /\ parts' = [i \in 1..n |-> LET ks == Positions(w, i) IN Unlines2([k \in 1..Len(ks) |-> lines[ks[k]]], b \/ ks = <<>> \/ Last(ks) < Len(lines))]
       /\ phase' = "run" /\ UNCHANGED <<inv, plan, lines, order>>
Map(i) == /\ phase = "run" /\ slots[i][1] = "todo"
          /\ slots' = [slots EXCEPT ![i] = <<"done", Mapped(ThePlan, PartOf(slots[i][2]), i), slots[i][2]>>]
          /\ UNCHANGED <<phase, inv, plan, lines, nl, order, parts>>
\* two neighbouring results
Combine(i) == /\ phase = "run" /\ i < Len(slots) /\ slots[i][1] = "done" /\ slots[i + 1][1] = "done"
              /\ slots' = SubSeq(slots, 1, i - 1) \o <<<<"done", Combined2(ThePlan, slots[i][2], slots[i + 1][2]), slots[i][3] \o slots[i + 1][3]>>>>
                          \o SubSeq(slots, i + 2, Len(slots))
              /\ order' = Append(order, i)
              /\ UNCHANGED <<phase, inv, plan, lines, nl, parts>>
\* all three at once, where that is possible; 0 in the order
CombineAll == /\ phase = "run" /\ Len(slots) = 3 /\ ~Associative(ThePlan) /\ \A i \in 1..3 : slots[i][1] = "done"
              /\ slots' = <<<<"done", Combined3(ThePlan, slots[1][2], slots[2][2], slots[3][2]), slots[1][3] \o slots[2][3] \o slots[3][3]>>>>
              /\ order' = Append(order, 0)
              /\ UNCHANGED <<phase, inv, plan, lines, nl, parts>>
Finish == /\ phase = "run" /\ Len(slots) = 1 /\ slots[1][1] = "done" /\ phase' = "done"
          /\ UNCHANGED <<inv, plan, lines, nl, slots, order, parts>>
Next == AddPiece \/ ChoosePlan \/ AddLine \/ CutText \/ (\E i \in Pick(1..Len(slots)) : Map(i) \/ Combine(i)) \/ CombineAll \/ Finish

-----------------------------------------------------------------------------
Plain == Uppers \cup Lowers \cup Digits \cup CharsOf("-_./,=:+@%^")
Shell(w) == IF w # "" /\ CharsOf(w) \subseteq Plain THEN w ELSE QuoteSingle(w)
Line == JoinWith([k \in 1..Len(Unparse(inv)) |-> Shell(Unparse(inv)[k])], " ")

Correct == phase = "done" => slots[1][2] = TheSeq
\* every result on the way is that of its part of the text
Invariant == phase = "run" => \A i \in 1..Len(slots) :
                slots[i][1] = "done" => LET ks == SetToSortSeq(RangeOf(slots[i][3]), LAMBDA a, b : a < b)
                                        IN  slots[i][2] = Sequential(Base(inv), PartOf(ks))
Emit == phase = "done" => PrintT("CASE " \o ToJson([line |-> Line, plan |-> plan, text |-> Unlines2(lines, nl), parts |-> parts, order |-> order, expected |-> TheSeq]))
=============================================================================
