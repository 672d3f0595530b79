------------------------------ MODULE SessionMC ------------------------------
(* All histories over some command lines, printed for replay.                *)
EXTENDS Session, Json, IOUtils

MaxOps == Number(IOEnv.OPS)
\* pairs of lines of the same command, of commands sharing code, and of unknown commands
LineSets == << <<"sort -r", "sort -R f1">>, <<"grep -f f2 a", "grep -c a f1">>, <<"tr a b", "tr -d '\\n'">>,
               <<"sed -e d", "sed s/a/b/ f1">>, <<"cut -f 1", "cut -z -d x -f 1 f1">>, <<"cat f1 -", "cat -n">>,
               <<"uniq f1 f2", "uniq -c">>, <<"xyz f1", "xargs -n 1 echo">>, <<"sort -o f3 f1", "uniq -d -">>,
               <<"mv -t f1 f2", "diff f1 -">>, <<"test_one a", "bigrams_aux">>, <<"tee f1", "comm -1 f1 f2">>,
               <<"head -n 1", "tail -f f1">>, <<"custom_sort -k 1", "sort -k 1">>, <<"awk -f f1", "awk 'x' f2">> >>
Chosen == IF IOEnv.LINESET = "all" THEN DOMAIN LineSets ELSE {Number(IOEnv.LINESET)}

VARIABLES set, objs, ops
vars == <<set, objs, ops>>
Lines == RangeOf(LineSets[set])
Operations ==
    { Operation("parse", 1, 1, s) : s \in Lines }
    \cup { Operation(op, k, 1, "") : op \in {"io", "para", "apply", "unpack", "map", "agg", "look", "lists", "fields", "empty"}, k \in 1..Len(objs) }
    \cup { Operation("addflag", k, 1, "-r") : k \in 1..Len(objs) } \cup { Operation("addoperand", k, 1, "f9") : k \in 1..Len(objs) }
\* the first is always to parse
Init == /\ set \in Chosen /\ ops = <<Operation("parse", 1, 1, LineSets[set][1])>>
        /\ objs = <<Object("inv", ParseLine(LineSets[set][1]).inv, 1)>>
Next == /\ Len(ops) < MaxOps
        /\ \E o \in Pick({ x \in Operations : Enabled(objs, x) }) : objs' = Step(objs, o).objs /\ ops' = Append(ops, o)
        /\ UNCHANGED set

\* what is asked last must be an answer
Silent == {"lists", "fields", "addflag", "addoperand", "empty"}
Emit == (Last(ops).op \notin Silent /\ \E k \in 1..(Len(ops) - 1) : ops[k].op # "parse")
           => PrintT("CASE " \o ToJson([ops |-> ops]))
\* an answer's object is about an invocation that exists
Sound == \A k \in 1..Len(objs) : objs[k].of \in 1..Len(objs) /\ objs[objs[k].of].kind = "inv"
=============================================================================
