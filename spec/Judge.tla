------------------------------- MODULE Judge -------------------------------
(* Frame for validating records of the real code: every record of the file  *)
(* TRACE is visited once, by one of several strands so that all workers of   *)
(* TLC take part, and Report is evaluated for it.                            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
N == Len(Records)
Strands == 16

VARIABLE l
JudgeInit == l \in 1..(IF N < Strands THEN N ELSE Strands)
JudgeNext == l + Strands <= N /\ l' = l + Strands

\* bad: the names of the clauses which the record violates
Report(r, bad, expected) ==
    bad = {} \/ PrintT("FAIL " \o ToJson([id |-> r.id, clauses |-> bad, expected |-> expected]))
=============================================================================
