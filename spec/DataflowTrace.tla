---------------------------- MODULE DataflowTrace ----------------------------
(* C09, C11: the implemented plans which the real code offers for a command  *)
(* line compute what the command does, for all texts up to a bound, all      *)
(* ways to cut them and all ways to combine the results.  A record has       *)
(*   line : the command line                                                 *)
(*   res  : [some, comm, plans], plans as in Dataflow                        *)
(* Since the mapper alone is compared with the command too, two parts are    *)
(* enough: the result for three follows from those for two.                  *)
EXTENDS Dataflow, Judge

MaxLines == Number(IOEnv.LINES)
TextSet == [c \in Modelled |-> TextsOver(LinesFor(c), MaxLines)]
TextsOf(c) == IF c \in Modelled THEN TextSet[c] ELSE TextSet["cat"]

Good == <<>>
In(m) == [m EXCEPT !.inv.acc = RangeOf(@)]
FromRecord(p) == [p EXCEPT !.mapper = In(@), !.aggs = [k \in 1..Len(@) |-> In(@[k])]]
\* <<what fails, text, first part>> or Good
PlanFailure(inv, p) ==
    LET Ts == TextsOf(inv.cmd)
        seq == TLCEval([t \in Ts |-> Sequential(inv, Written(t))])
        map == TLCEval([t \in Ts |-> Mapped(p, Written(t), 1)])
        map2 == TLCEval([t \in Ts |-> Mapped(p, Written(t), 2)])
        one == { t \in Ts : (IF Associative(p) THEN map[t] ELSE Combined1(p, map[t])) # seq[t] }
        cut(t, i) == Combined2(p, map[Part(t, 1, i)], map2[Part(t, i + 1, Len(t[1]))])
        cuts == { t \in Ts : \E i \in 0..Len(t[1]) : cut(t, i) # seq[t] }
        dealt(t, w) == Combined2(p, map[Given(t, w, 1)], map2[Given(t, w, 2)])
        deals == { t \in Ts : \E w \in [1..Len(t[1]) -> {1, 2}] : dealt(t, w) # seq[t] }
        few(S) == CHOOSE t \in S : \A u \in S : Len(t[1]) <= Len(u[1])
        auxmap == TLCEval([t \in Ts |-> MappedAux(p, Written(t))])
        auxcut(t, i) == CombinedAux(p, auxmap[Part(t, 1, i)], auxmap[Part(t, i + 1, Len(t[1]))])
        auxcuts == { t \in Ts : \E i \in 0..Len(t[1]) : auxcut(t, i) # auxmap[t] }
        auxone == { t \in Ts : auxmap[t][1] # seq[t] }
    IN  IF ~Runnable(p) THEN <<"cannot run", "", "">>
        ELSE IF p.naux = 2 THEN IF p.split # CC THEN <<"cannot run", "", "">>
                                ELSE IF auxone # {} THEN <<"one part", Written(few(auxone)), "">>
                                ELSE IF auxcuts # {} THEN <<"parts", Written(few(auxcuts)), "">> ELSE Good
        ELSE IF one # {} THEN <<"one part", Written(few(one)), "">>
        ELSE CASE p.split \in {CC, RR} ->
                    IF cuts = {} THEN Good
                    ELSE LET t == few(cuts) IN <<"parts", Written(t), Written(Part(t, 1, CHOOSE i \in 0..Len(t[1]) : cut(t, i) # seq[t]))>>
               [] p.split = RRU ->
                    IF deals = {} THEN Good
                    ELSE LET t == few(deals) IN <<"dealt lines", Written(t), Written(Given(t, CHOOSE w \in [1..Len(t[1]) -> {1, 2}] : dealt(t, w) # seq[t], 1))>>
               [] OTHER -> <<"unknown way to cut", "", "">>

\* commutative: no permutation of the lines changes the output
Permuted(t, f) == <<[k \in 1..Len(t[1]) |-> t[1][f[k]]], TRUE>>
CommFailure(inv) ==
    LET Ts == { t \in TextsOf(inv.cmd) : t[2] }
        bad == { t \in Ts : \E f \in Permutations(1..Len(t[1])) : Sequential(inv, Written(Permuted(t, f))) # Sequential(inv, Written(t)) }
    IN  IF bad = {} THEN Good ELSE <<"order of lines", Written(CHOOSE t \in bad : \A u \in bad : Len(t[1]) <= Len(u[1])), "">>

Failures(r) ==
    LET e == ParseLine(r.line)
        inv == Named(e.inv)
    IN  IF ~e.ok \/ ~r.res.some THEN <<>>
        ELSE IF ~OneStream(e.inv) \/ ~(e.inv.cmd \in Modelled \cup {"bigrams_aux"}) THEN <<>>
        ELSE IF Prop = "C11" THEN IF ~r.res.comm THEN <<>>
                                  ELSE IF Random(inv) THEN << <<"differs from run to run", "", "">> >>
                                  ELSE <<CommFailure(inv)>>
        ELSE [k \in 1..Len(r.res.plans) |-> IF Random(inv) THEN <<"differs from run to run", "", "">> ELSE PlanFailure(inv, FromRecord(r.res.plans[k]))]

Check == l <= N => LET r == Records[l]
                       f == Failures(r)
                       bad == { k \in 1..Len(f) : f[k] # Good }
                   IN  Report(r, { f[k][1] : k \in bad }, IF bad = {} THEN "" ELSE ToJson({ <<k, f[k]>> : k \in bad }))
=============================================================================
