------------------------------ MODULE TableGen ------------------------------
(* The converter from option lines of man pages to option tables.            *)
(* A line is a sequence of phrases [name, sep, arg]; sep is "" (no           *)
(* argument), " ", "  ", "=" or "[=".  A table is [flag, option], sequences  *)
(* of entries, which are sequences of spellings, options with the argument   *)
(* at the end.                                                               *)
EXTENDS Text

\* how the line is written
PhraseText(p) == p.name \o p.sep \o p.arg \o (IF p.sep = "[=" THEN "]" ELSE "")
LineText(line) == JoinWith([k \in 1..Len(line) |-> PhraseText(line[k])], ", ")

\* spellings of options: dashes and then lower-case letters, digits and dashes, or one upper-case letter
Dashes(s) == Cardinality({ k \in 1..Len(s) : \A i \in 1..k : Ch(s, i) = "-" })
IsSpelling(s) == LET rest == Drop(s, Dashes(s))
                 IN  /\ Dashes(s) >= 1 /\ rest # ""
                     /\ \/ CharsOf(rest) \subseteq Lowers \cup Digits \cup {"-"}
                        \/ Len(rest) = 1 /\ rest \in Uppers
IsArgument(s) == s # "" /\ CharsOf(s) \subseteq Uppers

Start == [seen |-> {}, flag |-> <<>>, option |-> <<>>]
RECURSIVE New(_, _)
New(line, seen) ==      \* the phrases whose spelling is new
    IF line = <<>> THEN <<>>
    ELSE IF ~IsSpelling(Head(line).name) \/ Head(line).name \in seen THEN New(Tail(line), seen)
    ELSE <<Head(line)>> \o New(Tail(line), seen \cup {Head(line).name})
Args(line) == SelectSeq(line, LAMBDA p : p.sep # "" /\ IsArgument(p.arg))
Names(line) == [k \in 1..Len(line) |-> line[k].name]
AddLine(t, line) ==
    LET new == New(line, t.seen)
        args == Args(new)
        seen == t.seen \cup RangeOf(Names(new))
    IN  IF new = <<>> THEN t
        ELSE IF args = <<>> THEN [t EXCEPT !.seen = seen, !.flag = Append(@, Names(new))]
        ELSE [t EXCEPT !.seen = seen, !.option = Append(@, Names(new) \o <<Last(args).arg>>)]
RECURSIVE Convert(_, _)
Convert(t, lines) == IF lines = <<>> THEN t ELSE Convert(AddLine(t, Head(lines)), Tail(lines))
Table(lines) == LET t == Convert(Start, lines) IN [flag |-> t.flag, option |-> t.option]

-----------------------------------------------------------------------------
(* What makes a table usable                                                 *)
SpellingsOf(t) == UNION { RangeOf(e) : e \in RangeOf(t.flag) }
                  \cup UNION { RangeOf(SubSeq(e, 1, Len(e) - 1)) : e \in RangeOf(t.option) }
Entries(t) == t.flag \o [k \in 1..Len(t.option) |-> SubSeq(t.option[k], 1, Len(t.option[k]) - 1)]
WellFormed(t) ==
    /\ \A e \in RangeOf(t.flag) : Len(e) >= 1
    /\ \A e \in RangeOf(t.option) : Len(e) >= 2
    /\ \A s \in SpellingsOf(t) : StartsWith(s, "-")
    /\ \A i, j \in 1..Len(Entries(t)) : i # j => RangeOf(Entries(t)[i]) \cap RangeOf(Entries(t)[j]) = {}
    /\ \A i \in 1..Len(Entries(t)) : Len(Entries(t)[i]) = Cardinality(RangeOf(Entries(t)[i]))

\* how "cmd s w" is read with a table
Read(t, s, w) ==
    LET f == { e \in RangeOf(t.flag) : s \in RangeOf(e) }
        o == { e \in RangeOf(t.option) : s \in RangeOf(SubSeq(e, 1, Len(e) - 1)) }
    IN  IF f # {} THEN [fos |-> << <<"F", (CHOOSE e \in f : TRUE)[1]>> >>, ops |-> <<w>>]
        ELSE IF o # {} THEN [fos |-> << <<"O", (CHOOSE e \in o : TRUE)[1], w>> >>, ops |-> <<>>]
        ELSE [fos |-> <<>>, ops |-> <<s, w>>]
=============================================================================
