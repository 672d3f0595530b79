----------------------------- MODULE SessionTrace -----------------------------
(* C16: every answer of a history is the one given to the same question by   *)
(* itself.  Records [ops, res : [steps, fresh]]: steps, an answer per        *)
(* operation ("" if silent); fresh, pairs of a question and the answer it    *)
(* gets in a process of its own.                                             *)
EXTENDS Session, Judge

Fresh(r, ask) == LET k == { i \in 1..Len(r.res.fresh) : r.res.fresh[i].ask = ask }
                 IN  IF k = {} THEN "?" ELSE r.res.fresh[CHOOSE i \in k : TRUE].answer
RECURSIVE Go(_, _, _)
Go(r, objs, k) ==
    IF k > Len(r.ops) THEN [bad |-> {}, want |-> ""]
    ELSE IF k > 1 /\ ~Enabled(objs, r.ops[k]) THEN [bad |-> {"case"}, want |-> ""]
    ELSE LET s == IF k = 1 THEN [ask |-> [q |-> "inv", val |-> ParseLine(r.ops[1].s).inv], objs |-> <<Object("inv", ParseLine(r.ops[1].s).inv, 1)>>]
                  ELSE Step(objs, r.ops[k])
         IN  IF s.ask.q # "" /\ Fresh(r, s.ask) # r.res.steps[k]
             THEN [bad |-> {r.ops[k].op \o " at step " \o ToString(k)}, want |-> Fresh(r, s.ask)]
             ELSE Go(r, s.objs, k + 1)
Check == l <= N => LET r == Records[l] v == Go(r, <<>>, 1) IN Report(r, v.bad, v.want)
=============================================================================
