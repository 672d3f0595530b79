------------------------------ MODULE TableGenMC ------------------------------
(* The converter reading lines one after the other, printed for replay.      *)
EXTENDS TableGen, Json, IOUtils

MaxLines == Number(IOEnv.LINES)
MaxPhrases == Number(IOEnv.PHRASES)
Rich == IOEnv.RICH = "1"
SpellingNames == IF Rich THEN {"-a", "-b", "-Z", "-z", "-0", "-1", "--all", "--a-b", "--ab", "--files0-from", "-name", "--name", "--a",
                       "--no-x", "--no-y", "--long-name-of-option", "-x", "-y", "-E", "-e", "-r", "--sort", "--2"}
         ELSE {"-a", "--ab", "--a-b", "-A"}
\* not spellings of options
Others == IF Rich THEN {"", "-", "--", "text", "-NUM", "--ARG", "sort - sort lines of text", "a", "a b -c", "-+x", "--x_y", "N", "+a", "-Ab"} ELSE {"", "-NUM"}
Seps == IF Rich THEN {"", " ", "  ", "=", "[="} ELSE {"", "=", " "}
ArgWords == IF Rich THEN {"N", "FILE", "ABC", "WORD"} ELSE {"N", "FILE"}
Phrases == { [name |-> n, sep |-> "", arg |-> ""] : n \in SpellingNames \cup Others }
           \cup { [name |-> n, sep |-> s, arg |-> a] : n \in SpellingNames, s \in Seps \ {""}, a \in ArgWords }

VARIABLES lines, table
vars == <<lines, table>>
Init == lines = <<>> /\ table = Start
RECURSIVE Tuples(_)
Tuples(n) == IF n = 0 THEN {<<>>} ELSE UNION { { Append(t, p) : p \in Pick(Phrases) } : t \in Tuples(n - 1) }
Next == /\ Len(lines) < MaxLines
        /\ \E n \in Pick(1..MaxPhrases) : \E line \in Tuples(n) :
              lines' = Append(lines, line) /\ table' = AddLine(table, line)
Usable == WellFormed([flag |-> table.flag, option |-> table.option]) /\ SpellingsOf(table) = table.seen
\* what was listed stays as it is
Grows == [][\E k \in 0..1 : Len(table'.flag) >= Len(table.flag) /\ SubSeq(table'.flag, 1, Len(table.flag)) = table.flag
            /\ SubSeq(table'.option, 1, Len(table.option)) = table.option]_vars
Emit == lines # <<>> => PrintT("CASE " \o ToJson([lines |-> lines, text |-> [k \in 1..Len(lines) |-> LineText(lines[k])]]))
=============================================================================
