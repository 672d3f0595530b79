---------------------------- MODULE TableGenTrace ----------------------------
(* C18: the converter's table is the specified one, and the parser reads     *)
(* words with it as the table says.                                          *)
EXTENDS TableGen, Judge

If(b, name) == IF b THEN {name} ELSE {}
Clauses(r) ==
    LET t == Table(r.lines)
    IN  If(~r.res.json, "JSON")
        \cup (IF ~r.res.json THEN {}
              ELSE If(r.res.table.flag # t.flag, "flags") \cup If(r.res.table.option # t.option, "options")
                   \cup If(\E k \in 1..Len(r.res.read) : LET x == r.res.read[k] y == Read(t, x.s, "w9")
                                                          IN  x.fos # y.fos \/ x.ops # y.ops, "parser"))
Check == l <= N => LET r == Records[l] bad == Clauses(r) IN Report(r, bad, IF bad = {} THEN "" ELSE ToJson(Table(r.lines)))
=============================================================================
