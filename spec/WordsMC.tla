------------------------------- MODULE WordsMC -------------------------------
(* Sequences of words for every command: all its spellings, bundles of its   *)
(* one-letter flags, and words which are no spellings but look like one.     *)
(* The parser automaton runs along; lines are printed for the code.          *)
EXTENDS Text, Tables, Lexer, Parser, TLC, Json, IOUtils

MaxWords == Number(IOEnv.MAXWORDS)
Rich == IOEnv.RICH = "1"
Commands == DOMAIN Table \cup {"test_one", "nosuchcommand", "/bin/sort", "_sort", "bin/../cat", "..", "sort "}

FlagSp(c) == DOMAIN FlagCanon(c)
OptSp(c) == DOMAIN OptCanon(c)
OneLetter(c) == { Ch(s, 2) : s \in { f \in FlagSp(c) : Len(f) = 2 /\ Ch(f, 1) = "-" } }
OptLetter(c) == { Ch(s, 2) : s \in { f \in OptSp(c) : Len(f) = 2 /\ Ch(f, 1) = "-" } }
AnyOf(S) == IF S = {} THEN {} ELSE {CHOOSE x \in S : TRUE}

Junk == {"x", "-", "", "--", "--nosuch", "-@", "-1", "sort", "-n1", "- n", "--n", "a b", "it's", "*", "-\n"}
Bundles(c) == { "-" \o a \o b : a, b \in OneLetter(c) }
Bundles3(c) == { "-" \o a \o b \o d : a \in AnyOf(OneLetter(c)), b, d \in OneLetter(c) }
Mixed(c) == { "-" \o a \o b : a \in OneLetter(c), b \in OptLetter(c) \cup {"@", "-", " "} }
            \cup { "-" \o b \o a : a \in OneLetter(c), b \in OptLetter(c) \cup {"@", "-", " "} }
            \cup { "--" \o a : a \in OneLetter(c) } \cup OneLetter(c)
            \cup { s \o "=x" : s \in FlagSp(c) \cup OptSp(c) } \cup { s \o "x" : s \in OptSp(c) }
            \cup { SubSeq(s, 1, Len(s) - 1) : s \in { t \in FlagSp(c) \cup OptSp(c) : Len(t) > 3 } }
Some1(c) == AnyOf(FlagSp(c)) \cup AnyOf(OptSp(c)) \cup AnyOf(Bundles(c)) \cup {"x", "", "-"}
Base(c) == FlagSp(c) \cup OptSp(c) \cup Junk

\* the words which may come next
Vocab(ws) ==
    LET c == ws[1]
        n == Len(ws)
    IN  CASE n = 1 -> Base(c) \cup Bundles(c) \cup Mixed(c) \cup (IF Rich THEN Bundles3(c) ELSE {})
          [] n = 2 -> IF ws[2] \in Base(c) THEN Base(c)
                      ELSE Some1(c)
          [] OTHER -> IF Rich /\ ws[n] \in Some1(c) THEN Base(c)
                      ELSE IF ws[n] \in Some1(c) \/ ws[n - 1] \in Some1(c) THEN Some1(c) ELSE {}

VARIABLES words, st
vars == <<words, st>>
\* the automaton, run as far as the words known so far determine
RECURSIVE RunKnown(_, _)
RunKnown(ws, s) == IF s.done \/ s.i > Len(ws) \/ (s.i = Len(ws) /\ IsOption(ws[1], ws[s.i])) THEN s ELSE RunKnown(ws, ParseStep(ws, s))

Init == \E c \in Commands : words = <<c>> /\ st = ParseInit
\* an option given to itself (or its other spelling), at the end of what is explored, may be followed by one more word
Echo(ws) == LET n == Len(ws)
            IN  IF n >= 3 /\ {ws[n - 1], ws[n]} \subseteq OptSp(ws[1]) THEN IF OptCanon(ws[1])[ws[n - 1]] = OptCanon(ws[1])[ws[n]]
                THEN {"x", ws[n]} ELSE {} ELSE {}
Next == \E w \in Pick(IF Len(words) < MaxWords THEN Vocab(words) ELSE IF Len(words) = MaxWords THEN Echo(words) ELSE {}) :
            words' = Append(words, w) /\ st' = RunKnown(words', st)

Line == JoinWith([k \in 1..Len(words) |-> IF words[k] # "" /\ CharsOf(words[k]) \cap {" ", "\t", "\n", "'", "\"", "\\"} = {}
                                         THEN words[k] ELSE QuoteSingle(words[k])], " ")
Inv == ParseWords(words)

Incremental == \* the automaton never revises a decision
    [][SubSeq(st'.fos, 1, Len(st.fos)) = st.fos /\ (st.done => st' = st)]_vars
Lexed == Lex(Line) = [ok |-> TRUE, words |-> words]
Conserved == Conserves(words, Inv)
CanonicalNames == Canonical(Inv)
Stable == LET again == ParseWords(Unparse(Inv)) IN again = Inv
Agrees == st.done => st.fos = Inv.fos
Emit == PrintT("CASE " \o ToJson([line |-> Line]))
=============================================================================
