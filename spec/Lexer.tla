------------------------------- MODULE Lexer -------------------------------
(* Splitting a command line into words, as a POSIX shell does it.            *)
(*                                                                           *)
(* The automaton reads one character per step.  Its state is a record        *)
(*   mode : "gap"  between words          "word" inside a word               *)
(*          "sq"   inside '...'           "dq"   inside "..."                *)
(*          "esc"  after \ in a word      "dqesc" after \ inside "..."       *)
(*   cur  : the characters of the current word so far                        *)
(*   words: the words finished so far                                        *)
EXTENDS Text

LexInit == [mode |-> "gap", cur |-> "", words |-> <<>>]

LexStep(st, c) ==
    CASE st.mode \in {"gap", "word"} ->
           IF c \in Blanks
           THEN IF st.mode = "word"
                THEN [mode |-> "gap", cur |-> "", words |-> Append(st.words, st.cur)]
                ELSE st
           ELSE IF c = "'" THEN [st EXCEPT !.mode = "sq"]
           ELSE IF c = "\"" THEN [st EXCEPT !.mode = "dq"]
           ELSE IF c = "\\" THEN [st EXCEPT !.mode = "esc"]
           ELSE [st EXCEPT !.mode = "word", !.cur = @ \o c]
      [] st.mode = "sq" ->
           IF c = "'" THEN [st EXCEPT !.mode = "word"] ELSE [st EXCEPT !.cur = @ \o c]
      [] st.mode = "dq" ->
           IF c = "\"" THEN [st EXCEPT !.mode = "word"]
           ELSE IF c = "\\" THEN [st EXCEPT !.mode = "dqesc"]
           ELSE [st EXCEPT !.cur = @ \o c]
      [] st.mode = "esc" ->
           [st EXCEPT !.mode = "word", !.cur = @ \o c]
      [] st.mode = "dqesc" ->
           IF c \in {"\"", "\\"} THEN [st EXCEPT !.mode = "dq", !.cur = @ \o c]
           ELSE [st EXCEPT !.mode = "dq", !.cur = @ \o "\\" \o c]

LexAccepting(st) == st.mode \in {"gap", "word"}

LexWords(st) == IF st.mode = "word" THEN Append(st.words, st.cur) ELSE st.words

RECURSIVE LexRun(_, _, _)
LexRun(st, line, i) == IF i > Len(line) THEN st ELSE LexRun(LexStep(st, Ch(line, i)), line, i + 1)

(* The words of a line; lines which end inside a quotation have none         *)
Lex(line) == LET st == LexRun(LexInit, line, 1)
             IN  IF LexAccepting(st) THEN [ok |-> TRUE, words |-> LexWords(st)]
                                     ELSE [ok |-> FALSE, words |-> <<>>]

(* Ways to write a word so that the lexer gives it back                      *)
QuoteSingle(w) == "'" \o Concat([i \in 1..Len(w) |-> IF Ch(w, i) = "'" THEN "'\\''" ELSE Ch(w, i)]) \o "'"
QuoteDouble(w) == "\"" \o Concat([i \in 1..Len(w) |-> IF Ch(w, i) \in {"\"", "\\"} THEN "\\" \o Ch(w, i) ELSE Ch(w, i)]) \o "\""
QuoteBackslash(w) == IF w = "" THEN "''" ELSE Concat([i \in 1..Len(w) |-> "\\" \o Ch(w, i)])
=============================================================================
