------------------------------- MODULE NearMC -------------------------------
(* Histories over lines that are alike: a line, and then one that differs    *)
(* from it in one place only (a word, a blank, a letter's case, the order,   *)
(* the number of words), and the first line again; or many such lines one    *)
(* after the other.                                                          *)
EXTENDS Session, Json, IOUtils

MaxLines == Number(IOEnv.LINES)

Base == { <<"grep", "-e", "a b", "-n", "f1">>, <<"grep", "-A", "1", "a", "f1">>, <<"grep", "-c", "a", "f1", "f2">>, <<"sort", "-k", "1", "-t", " ", "f1">>,
          <<"sort", "--sort", "random">>, <<"sort", "-o", "f2", "-T", "d", "f1">>, <<"tr", "-d", "\\n">>, <<"tr", "a", "b">>, <<"sed", "-e", "s/a/b/", "f1">>,
          <<"sed", "d", "f1">>, <<"cut", "-d", " ", "-f", "1,2">>, <<"uniq", "-f", "1", "f1">>, <<"uniq", "-c", "f1", "f2">>, <<"head", "-n", "1", "f1">>,
          <<"tail", "-n", "2">>, <<"xargs", "-n", "1", "rm">>, <<"mv", "-t", "f1", "f2">>, <<"mv", "f1", "f2", "d">>, <<"comm", "-1", "f1", "f2">>,
          <<"cat", "-n", "f1", "-">>, <<"awk", "-F", " ", "x", "f1">>, <<"wc", "-l", "f1">>, <<"diff", "f1", "f2">>, <<"seq", "1", "2">>, <<"tee", "-a", "f1">>,
          <<"rm", "f1">>, <<"xyz", "-a", "b">>, <<"custom_sort", "-k", "1">>, <<"mkfifo", "p">>, <<"set_diff", "f1">>, <<"bigrams_aux">>, <<"col", "-b">> }
Some == {"-", "a", "A", "a b", "", "-r", "-n", "-z", "-m", "-c", "-R", "-d", "-D", "-i", "-q", "random", "numeric", "\\n", "n", "1", "2", "10", "f1", "f2", "d", "q", "s/a/b/q", "-a"}
Commands0 == {"grep", "./grep", "Grep", "grep ", "cat", "sort", "sed", "uniq", "xyz", "mv", "tr"}
Cased == [ c \in {"a", "b", "c", "d", "e", "f", "n", "r", "s", "t", "x"} |->
           CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" [] c = "n" -> "N" [] c = "r" -> "R"
             [] c = "s" -> "S" [] c = "t" -> "T" [] c = "x" -> "X"]
Like(w) == { Concat([i \in 1..Len(w) |-> IF Ch(w, i) = " " THEN "  " ELSE Ch(w, i)]), w \o " ", " " \o w, w \o w, w \o "\n" }
           \cup (IF Len(w) > 0 THEN { SubSeq(w, 1, Len(w) - 1) } ELSE {})
           \cup { Concat([i \in 1..Len(w) |-> IF i = k /\ Ch(w, i) \in DOMAIN Cased THEN Cased[Ch(w, i)] ELSE Ch(w, i)]) : k \in 1..Len(w) }
Near(ws) ==
    ({ [ws EXCEPT ![1] = c] : c \in Commands0 }
     \cup UNION { { [ws EXCEPT ![i] = w] : w \in Some \cup Like(ws[i]) } : i \in 2..Len(ws) }
     \cup { [ws EXCEPT ![i] = ws[j], ![j] = ws[i]] : i, j \in 2..Len(ws) }
     \cup { SubSeq(ws, 1, i - 1) \o SubSeq(ws, i + 1, Len(ws)) : i \in 2..Len(ws) }
     \cup { SubSeq(ws, 1, i) \o SubSeq(ws, i, Len(ws)) : i \in 2..Len(ws) }
     \cup { Append(ws, w) : w \in {"f1", "-", "x", "f2"} }) \ {ws}
Text(ws) == JoinWith([i \in 1..Len(ws) |-> QuoteSingle(ws[i])], " ")

VARIABLES last, lines
\* pairs: the base and something near it; crowds: a walk from line to line
Init == last \in Pick(Base) /\ lines = <<last>>
Next == /\ Len(lines) < MaxLines
        /\ \E w \in Pick(Near(last)) : lines' = Append(lines, w) /\ last' \in (IF MaxLines = 2 THEN {w} ELSE Pick({w} \cup Base))

Op(o, n) == Operation(o, n, 1, "")
Asked(ws, n) == << Operation("parse", 1, 1, Text(ws)), Op("io", n), Op("para", n), Op("unpack", n + 2), Op("apply", n + 1) >>
Order == IF MaxLines = 2 THEN Append(lines, lines[1]) ELSE lines \o lines
RECURSIVE History(_)
History(k) == IF k = 0 THEN <<>> ELSE History(k - 1) \o Asked(Order[k], 5 * (k - 1) + 1)
Emit == (Len(lines) = MaxLines) => PrintT("CASE " \o ToJson([ops |-> History(Len(Order))]))
=============================================================================
