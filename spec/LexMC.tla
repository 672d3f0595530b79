-------------------------------- MODULE LexMC --------------------------------
(* All lines up to a length over a small alphabet of blanks, quotes,         *)
(* backslash, "-" and letters, built one character at a time together with   *)
(* the state of the lexer.  Every line is printed, to be parsed by the code. *)
EXTENDS Text, Tables, Lexer, Parser, TLC, Json, IOUtils

MaxLen == Number(IOEnv.MAXLEN)
Alphabet == {"r", "-", " ", "'", "\"", "\\"} \cup (IF IOEnv.ALPHA = "rich" THEN {"\t", "\n", "\r", "k", "=", "#", "$", ";"} ELSE {})
Prefixes == {"", "sort -k ", "cat "}

VARIABLES prefix, rest, st
Init == prefix \in Prefixes /\ rest = "" /\ st = LexRun(LexInit, prefix, 1)
Next == /\ Len(rest) < MaxLen
        /\ \E c \in Pick(Alphabet) : /\ ~(EndsWith(rest, "\\") /\ c \in {"\n", "$", "`"})
                               /\ (c = "\r" => st.mode \in {"sq", "dq"})
                               /\ rest' = rest \o c
                               /\ st' = LexStep(st, c)
                               /\ prefix' = prefix
Line == prefix \o rest

TypeOK == st.mode \in {"gap", "word", "sq", "dq", "esc", "dqesc"}
\* words are never taken back
Grows == [][SubSeq(st'.words, 1, Len(st.words)) = st.words]_<<prefix, rest, st>>
\* without quoting characters the words are what is between blanks
NoQuotes == CharsOf(Line) \cap {"'", "\"", "\\"} = {} =>
              /\ LexAccepting(st)
              /\ Concat(LexWords(st)) = Concat([i \in 1..Len(Line) |-> IF Ch(Line, i) \in Blanks THEN "" ELSE Ch(Line, i)])
              /\ \A w \in RangeOf(LexWords(st)) : w # "" /\ CharsOf(w) \cap Blanks = {}
\* any way to quote the words gives them back
Quoted(q(_)) == LexAccepting(st) => Lex(JoinWith([i \in 1..Len(LexWords(st)) |-> q(LexWords(st)[i])], " ")) = [ok |-> TRUE, words |-> LexWords(st)]
RoundTrip == Quoted(QuoteSingle) /\ Quoted(QuoteDouble) /\ Quoted(QuoteBackslash)
Conserved == LexAccepting(st) /\ LexWords(st) # <<>> => Conserves(LexWords(st), ParseWords(LexWords(st)))
Emit == PrintT("CASE " \o ToJson([line |-> Line]))
=============================================================================
