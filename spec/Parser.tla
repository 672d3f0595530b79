------------------------------- MODULE Parser -------------------------------
(* Classification of the words of a command line.                            *)
(*                                                                           *)
(* An invocation is a record                                                 *)
(*   cmd : the command name                                                  *)
(*   fos : flags <<"F", name>> and options <<"O", name, argument>>, in order *)
(*   ops : operands, in order                                                *)
EXTENDS Text, Tables, Lexer

NoTable == [flags |-> <<>>, options |-> <<>>]

TableOf(cmd) == IF cmd \in DOMAIN Table THEN Table[cmd] ELSE NoTable

\* evaluated once per command by TLC: spelling |-> canonical spelling
FlagCanonOf == [c \in DOMAIN Table |->
    [s \in UNION { RangeOf(e) : e \in RangeOf(Table[c].flags) } |->
        (CHOOSE e \in RangeOf(Table[c].flags) : s \in RangeOf(e))[1]]]
OptCanonOf == [c \in DOMAIN Table |->
    [s \in UNION { RangeOf(e.sp) : e \in RangeOf(Table[c].options) } |->
        (CHOOSE e \in RangeOf(Table[c].options) : s \in RangeOf(e.sp)).sp[1]]]
OptFileOf == [c \in DOMAIN Table |->
    [s \in { e.sp[1] : e \in RangeOf(Table[c].options) } |->
        (CHOOSE e \in RangeOf(Table[c].options) : s = e.sp[1]).file]]

EmptyMap == [x \in {} |-> ""]
FlagCanon(cmd) == IF cmd \in DOMAIN Table THEN FlagCanonOf[cmd] ELSE EmptyMap
OptCanon(cmd) == IF cmd \in DOMAIN Table THEN OptCanonOf[cmd] ELSE EmptyMap
OptFile(cmd) == IF cmd \in DOMAIN Table THEN OptFileOf[cmd] ELSE EmptyMap

IsFlag(cmd, w) == w \in DOMAIN FlagCanon(cmd)
IsOption(cmd, w) == w \in DOMAIN OptCanon(cmd)
IsBundle(cmd, w) == /\ Len(w) >= 2
                    /\ Ch(w, 1) = "-"
                    /\ \A i \in 2..Len(w) : IsFlag(cmd, "-" \o Ch(w, i))

Flag(n) == <<"F", n>>
Opt(n, a) == <<"O", n, a>>

(* One step of the classification.  The state is [i, fos, done]: the next    *)
(* word, the flags and options so far, whether the operands were reached.    *)
ParseInit == [i |-> 2, fos |-> <<>>, done |-> FALSE]

ParseStep(words, st) ==
    LET cmd == words[1]
        w == words[st.i]
    IN  IF st.i > Len(words) THEN [st EXCEPT !.done = TRUE]
        ELSE IF IsFlag(cmd, w)
        THEN [st EXCEPT !.i = @ + 1, !.fos = Append(@, Flag(FlagCanon(cmd)[w]))]
        ELSE IF IsOption(cmd, w) /\ st.i < Len(words)
        THEN [st EXCEPT !.i = @ + 2, !.fos = Append(@, Opt(OptCanon(cmd)[w], words[st.i + 1]))]
        ELSE IF IsBundle(cmd, w)
        THEN [st EXCEPT !.i = @ + 1,
                        !.fos = @ \o [k \in 1..(Len(w) - 1) |-> Flag(FlagCanon(cmd)["-" \o Ch(w, k + 1)])]]
        ELSE [st EXCEPT !.done = TRUE]

RECURSIVE ParseRun(_, _)
ParseRun(words, st) == IF st.done THEN st ELSE ParseRun(words, ParseStep(words, st))

ParseWords(words) ==
    LET st == ParseRun(words, ParseInit)
    IN  [cmd |-> words[1], fos |-> st.fos, ops |-> SubSeq(words, st.i, Len(words))]

NoInv == [cmd |-> "", fos |-> <<>>, ops |-> <<>>]

(* The invocation of a line, if it has one                                   *)
ParseLine(line) ==
    LET lx == Lex(line)
    IN  IF lx.ok /\ lx.words # <<>> THEN [ok |-> TRUE, inv |-> ParseWords(lx.words)]
                                    ELSE [ok |-> FALSE, inv |-> NoInv]

-----------------------------------------------------------------------------
(* Conservation: an invocation accounts for all words, in order, whichever   *)
(* of them are taken as flags and options.  Independent of ParseStep.        *)
SameFlag(cmd, w, n) == w = n \/ (w \in DOMAIN FlagCanon(cmd) /\ n \in DOMAIN FlagCanon(cmd)
                                  /\ FlagCanon(cmd)[w] = FlagCanon(cmd)[n])
SameOption(cmd, w, n) == w = n \/ (w \in DOMAIN OptCanon(cmd) /\ n \in DOMAIN OptCanon(cmd)
                                    /\ OptCanon(cmd)[w] = OptCanon(cmd)[n])

BundleMatches(cmd, w, fos, k) ==
    /\ Len(w) >= 2 /\ Ch(w, 1) = "-"
    /\ k + Len(w) - 2 <= Len(fos)
    /\ \A j \in 2..Len(w) : /\ fos[k + j - 2][1] = "F"
                            /\ SameFlag(cmd, "-" \o Ch(w, j), fos[k + j - 2][2])

(* k, i: the next entry of fos and the next word                             *)
RECURSIVE Accounts(_, _, _, _)
Accounts(words, inv, k, i) ==
    IF k > Len(inv.fos) THEN SubSeq(words, i, Len(words)) = inv.ops
    ELSE /\ i <= Len(words)
         /\ LET e == inv.fos[k]
            IN  \/ e[1] = "F" /\ SameFlag(inv.cmd, words[i], e[2]) /\ Accounts(words, inv, k + 1, i + 1)
                \/ e[1] = "O" /\ i < Len(words) /\ SameOption(inv.cmd, words[i], e[2]) /\ words[i + 1] = e[3]
                              /\ Accounts(words, inv, k + 1, i + 2)
                \/ e[1] = "F" /\ BundleMatches(inv.cmd, words[i], inv.fos, k)
                              /\ Accounts(words, inv, k + Len(words[i]) - 1, i + 1)

Conserves(words, inv) == words # <<>> /\ inv.cmd = words[1] /\ Accounts(words, inv, 1, 2)

(* Every name is canonical                                                   *)
Canonical(inv) == \A k \in 1..Len(inv.fos) :
    LET e == inv.fos[k]
    IN  IF e[1] = "F" THEN IsFlag(inv.cmd, e[2]) /\ FlagCanon(inv.cmd)[e[2]] = e[2]
                      ELSE IsOption(inv.cmd, e[2]) /\ OptCanon(inv.cmd)[e[2]] = e[2]

(* The words of an invocation, which parse to the same invocation            *)
RECURSIVE FoWords(_)
FoWords(fos) == IF fos = <<>> THEN <<>>
                ELSE (IF Head(fos)[1] = "F" THEN <<Head(fos)[2]>> ELSE <<Head(fos)[2], Head(fos)[3]>>) \o FoWords(Tail(fos))
Unparse(inv) == <<inv.cmd>> \o FoWords(inv.fos) \o inv.ops

Names(inv) == { inv.fos[k][2] : k \in 1..Len(inv.fos) }
HasAny(inv, names) == Names(inv) \cap names # {}
Count(inv, name) == Cardinality({ k \in 1..Len(inv.fos) : inv.fos[k][2] = name })
ArgsOf(inv, name) == { inv.fos[k][3] : k \in { j \in 1..Len(inv.fos) : inv.fos[j][2] = name /\ inv.fos[j][1] = "O" } }
=============================================================================
