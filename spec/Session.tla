------------------------------- MODULE Session -------------------------------
(* Histories of parsing, asking and changing answers.  Objects are numbered. *)
(*   [kind : "inv", "io", "para", "applied", "list", "mapper", "agg"         *)
(*    val  : the invocation it belongs to, as it was then (for an invocation,*)
(*           as it is now)                                                   *)
(*    of   : the invocation object it comes from                             *)
(*    live : whether it may still be used: not after it was scribbled on]    *)
(* An answer depends only on what is asked: [q : the question, val].         *)
EXTENDS Parser

Object(kind, val, of) == [kind |-> kind, val |-> val, of |-> of, live |-> TRUE]
Operation(op, o, p, s) == [op |-> op, o |-> o, p |-> p, s |-> s]

\* what is expected of the answer, and the objects afterwards
Step(objs, o) ==
    LET x == objs[o.o]
        y == objs[o.p]
        ask(q, val, kind, of) == [ask |-> [q |-> q, val |-> val], objs |-> IF kind = "" THEN objs ELSE Append(objs, Object(kind, val, of))]
        silent(next) == [ask |-> [q |-> "", val |-> [cmd |-> "", fos |-> <<>>, ops |-> <<>>]], objs |-> next]
        kill(S) == [k \in 1..Len(objs) |-> [objs[k] EXCEPT !.live = @ /\ k \notin S]]
    IN  CASE o.op = "parse" -> ask("inv", ParseLine(o.s).inv, "inv", Len(objs) + 1)
          [] o.op = "io" -> ask("io", x.val, "io", o.o)
          [] o.op = "para" -> ask("para", x.val, "para", o.o)
          [] o.op = "apply" -> ask("applied", x.val, "applied", x.of)      \* x an io, to its invocation
          [] o.op = "unpack" -> ask("list", x.val, "list", x.of)
          [] o.op = "map" -> ask("mapper", x.val, "mapper", x.of)          \* x a para
          [] o.op = "agg" -> ask("agg", x.val, "agg", x.of)
          [] o.op = "look" -> ask(x.kind, x.val, "", 0)                    \* it is still the same
          [] o.op = "addflag" -> silent([objs EXCEPT ![o.o].val.fos = Append(@, <<"F", o.s>>)])
          [] o.op = "addoperand" -> silent([objs EXCEPT ![o.o].val.ops = Append(@, o.s)])
          [] o.op = "empty" -> silent([objs EXCEPT ![o.o].val.fos = <<>>, ![o.o].val.ops = <<>>])
          [] o.op = "lists" -> silent(kill({o.o}))                         \* lists of an answer are overwritten
          [] o.op = "fields" -> silent(kill({ k \in 1..Len(objs) : objs[k].of = x.of }))   \* everything in an answer

\* which operations are possible
Enabled(objs, o) ==
    LET has(k) == k \in 1..Len(objs) /\ objs[k].live
        kind(k) == objs[k].kind
        same(k) == has(objs[k].of) /\ objs[objs[k].of].val = objs[k].val   \* its invocation is still what was asked about
    IN  CASE o.op = "parse" -> TRUE
          [] o.op \in {"io", "para", "addflag", "addoperand", "empty"} -> has(o.o) /\ kind(o.o) = "inv"
          [] o.op = "apply" -> has(o.o) /\ kind(o.o) = "io" /\ same(o.o)
          [] o.op = "unpack" -> has(o.o) /\ kind(o.o) = "para"
          [] o.op \in {"map", "agg"} -> has(o.o) /\ kind(o.o) = "para" /\ same(o.o)
          [] o.op \in {"look", "fields"} -> has(o.o)
          [] o.op = "lists" -> has(o.o) /\ kind(o.o) # "inv"
=============================================================================
