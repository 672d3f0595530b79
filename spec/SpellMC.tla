------------------------------- MODULE SpellMC -------------------------------
(* Writes an invocation down in every way which means the same: each flag    *)
(* and option by any of its spellings, neighbouring one-letter flags bundled *)
(* or apart, words plain or quoted.  Every way is printed together with the  *)
(* plain canonical one.                                                      *)
EXTENDS Text, Tables, Lexer, Parser, TLC, Json, IOUtils

MaxFos == Number(IOEnv.MAXFOS)
Rich == IOEnv.RICH = "1"

VARIABLES inv, k, out, quote, phase
vars == <<inv, k, out, quote, phase>>

Commands == DOMAIN Table
FlagEntries(c) == RangeOf(TableOf(c).flags)
OptEntries(c) == RangeOf(TableOf(c).options)
ArgFor(c, o) == IF c = "sed" THEN "s/a/b/" ELSE IF c \in {"sort", "custom_sort"} /\ o = "-k" THEN "2,2" ELSE "f 1"
Entries(c) == { Flag(e[1]) : e \in FlagEntries(c) } \cup { Opt(e.sp[1], ArgFor(c, e.sp[1])) : e \in OptEntries(c) }
Ops(c) == CASE c \in {"tr", "custom_tr"} -> {<<"a-z">>, <<"\\n", " ">>}
            [] c = "sed" -> {<<"s/a/b/", "f1">>, <<"$d">>}
            [] c = "mv" -> {<<"f1", "f2">>, <<"f 1">>}
            [] OTHER -> {<<>>, <<"p", "f 1">>}

SpellingsOf(c, e) == IF e[1] = "F" THEN { s \in DOMAIN FlagCanon(c) : FlagCanon(c)[s] = e[2] }
                                   ELSE { s \in DOMAIN OptCanon(c) : OptCanon(c)[s] = e[2] }
Letters(c, e) == IF e[1] = "F" THEN { Ch(s, 2) : s \in { f \in SpellingsOf(c, e) : Len(f) = 2 /\ Ch(f, 1) = "-" } } ELSE {}
Relevant == {"-e", "-f", "-q", "-r", "-R", "-i", "-o", "-c", "-d", "-s", "-z", "-u", "-m", "-C", "-D", "-t"}

\* phase "build": choose the invocation; "write": write it down; "done"
Init == \E c \in Commands, q \in Pick({"plain", "single", "double", "back", "pieces"}) :
            inv = [cmd |-> c, fos |-> <<>>, ops |-> <<>>] /\ k = 1 /\ out = <<c>> /\ quote = q /\ phase = "build"
Choose == /\ phase = "build" /\ Len(inv.fos) < MaxFos
          /\ \E e \in Pick(Entries(inv.cmd)) :
               /\ IF Rich \/ inv.fos = <<>> THEN TRUE
                  ELSE quote = "plain" /\ {e[2], inv.fos[1][2]} \cap Relevant # {}
               /\ inv' = [inv EXCEPT !.fos = Append(@, e)]
          /\ UNCHANGED <<k, out, quote, phase>>
Ready == /\ phase = "build" /\ inv.fos # <<>>
         /\ \E o \in Pick(Ops(inv.cmd)) : inv' = [inv EXCEPT !.ops = o]
         /\ phase' = "write" /\ UNCHANGED <<k, out, quote>>
WriteOne == /\ phase = "write" /\ k <= Len(inv.fos)
            /\ \E s \in Pick(SpellingsOf(inv.cmd, inv.fos[k])) :
                 out' = out \o (IF inv.fos[k][1] = "F" THEN <<s>> ELSE <<s, inv.fos[k][3]>>)
            /\ k' = k + 1 /\ UNCHANGED <<inv, quote, phase>>
WriteTwo == /\ phase = "write" /\ k + 1 <= Len(inv.fos)
            /\ \E a \in Letters(inv.cmd, inv.fos[k]), b \in Letters(inv.cmd, inv.fos[k + 1]) :
                 /\ "-" \o a \o b \notin DOMAIN FlagCanon(inv.cmd) \cup DOMAIN OptCanon(inv.cmd)
                 /\ out' = Append(out, "-" \o a \o b)
            /\ k' = k + 2 /\ UNCHANGED <<inv, quote, phase>>
WriteThree == /\ phase = "write" /\ k + 2 <= Len(inv.fos)
            /\ \E a \in Letters(inv.cmd, inv.fos[k]), b \in Letters(inv.cmd, inv.fos[k + 1]), c \in Letters(inv.cmd, inv.fos[k + 2]) :
                 /\ "-" \o a \o b \o c \notin DOMAIN FlagCanon(inv.cmd) \cup DOMAIN OptCanon(inv.cmd)
                 /\ out' = Append(out, "-" \o a \o b \o c)
            /\ k' = k + 3 /\ UNCHANGED <<inv, quote, phase>>
Finish == /\ phase = "write" /\ k > Len(inv.fos)
          /\ phase' = "done" /\ out' = out \o inv.ops /\ UNCHANGED <<inv, k, quote>>
Next == Choose \/ Ready \/ WriteOne \/ WriteTwo \/ WriteThree \/ Finish

Plain == Uppers \cup Lowers \cup Digits \cup CharsOf("-_./,=:+@%^")
Shell(w) == IF w # "" /\ CharsOf(w) \subseteq Plain THEN w ELSE QuoteSingle(w)
\* a word in pieces, which are quoted in different ways
Piece(c, n) == CASE n = 1 /\ c \notin {"$", "`"} -> QuoteDouble(c)
                 [] n = 3 -> QuoteBackslash(c)
                 [] n = 0 /\ c \in Plain -> c
                 [] OTHER -> QuoteSingle(c)
Write(w) == CASE quote = "plain" -> Shell(w)
              [] quote = "single" -> QuoteSingle(w)
              [] quote = "double" -> IF CharsOf(w) \cap {"$", "`"} = {} THEN QuoteDouble(w) ELSE QuoteSingle(w)
              [] quote = "back" -> QuoteBackslash(w)
              [] quote = "pieces" -> IF w = "" THEN "''\"\"" ELSE Concat([i \in 1..Len(w) |-> Piece(Ch(w, i), i % 4)])
Line == JoinWith([i \in 1..Len(out) |-> Write(out[i])], " ")
BaseLine == LET u == Unparse(inv) IN JoinWith([i \in 1..Len(u) |-> Shell(u[i])], " ")

SameMeaning == phase = "done" => ParseLine(Line) = ParseLine(BaseLine) /\ ParseLine(Line).inv = inv
Emit == phase = "done" => PrintT("CASE " \o ToJson([base |-> BaseLine, line |-> Line]))
=============================================================================
