------------------------------- MODULE SizesMC -------------------------------
(* Nothing about an invocation depends on how long it is: long lists of      *)
(* flags, options and operands, long bundles, long words, for every command. *)
EXTENDS Text, Json

Sizes == IF IOEnv.RICH = "1" THEN {13, 17, 20, 33, 65, 100, 129, 257} ELSE {17, 40, 129}

VARIABLES shape
vars == <<shape>>

Cyclic(seq, n, off) == [i \in 1..n |-> seq[1 + ((i + off) % Len(seq))]]
RECURSIVE Letters(_, _)
Letters(n, off) == IF n = 0 THEN "" ELSE Ch("abcdefgh xyz-", 1 + ((n + off) % 13)) \o Letters(n - 1, off)

Built(s, TableOf(_), OperandVocab(_), ArgVocab(_, _)) ==
    LET t == TableOf(s.cmd)
        flags == [i \in 1..Len(t.flags) |-> <<"F", t.flags[i][1]>>]
        word == CHOOSE w \in OperandVocab(s.cmd) : w \notin {"-", ""}
        options == [i \in 1..Len(t.options) |-> <<"O", t.options[i].sp[1], CHOOSE a \in ArgVocab(s.cmd, t.options[i].sp[1]) : TRUE>>]
        ops(n) == [i \in 1..n |-> IF i % 3 = 2 THEN "-" ELSE word]
        make(fos, os) == [cmd |-> s.cmd, fos |-> fos, ops |-> os]
    IN  CASE s.kind = "none" -> make(<<>>, <<>>)
          [] s.kind = "flags" -> make(Cyclic(flags, s.n, s.off), ops(s.ops))
          [] s.kind = "options" -> make(Cyclic(options, s.n, s.off), ops(s.ops))
          [] s.kind = "both" -> make(Cyclic(flags \o options, s.n, s.off), ops(s.n))
          [] s.kind = "operands" -> make(<<>>, ops(s.n))
          [] s.kind = "word" -> make(<<>>, <<Letters(s.n, s.off)>> \o ops(s.ops))
          [] s.kind = "last word" -> make(<<>>, ops(1) \o <<Letters(s.n, s.off)>>)
          [] OTHER -> make(<<<<"O", t.options[1 + (s.off % Len(t.options))].sp[1], Letters(s.n, s.off)>>>>, ops(s.ops))

VARIABLE inv
M == INSTANCE AnnMC

HasFlags(c) == M!TableOf(c).flags # <<>>
HasOptions(c) == M!TableOf(c).options # <<>>
Chosen == IF IOEnv.RICH = "1" THEN M!Commands ELSE M!Commands \ (M!Lookalikes \cup {"/usr/bin/sort", "_sort", "bigram_aux_map"})
Init == /\ \E c \in Chosen : \E n \in Sizes : shape = [kind |-> "none", cmd |-> c, n |-> n]
        /\ inv = [cmd |-> "", fos |-> <<>>, ops |-> <<>>]
Next == /\ shape.kind = "none"
        /\ LET c == shape.cmd n == shape.n IN \E off \in 0..(IF IOEnv.RICH = "1" THEN 3 ELSE 1) : \E o \in 0..2 :
             \E kind \in (IF HasFlags(c) THEN {"flags"} ELSE {}) \cup (IF HasOptions(c) THEN {"options", "argument"} ELSE {})
                         \cup (IF (HasFlags(c) \/ HasOptions(c)) /\ o = 0 THEN {"both"} ELSE {})
                         \cup (IF off = 0 /\ o = 0 THEN {"operands", "last word"} ELSE {}) \cup (IF off = 0 /\ o # 1 THEN {"word"} ELSE {}) :
               /\ shape' = [cmd |-> c, kind |-> kind, n |-> n, off |-> off, ops |-> o]
               /\ inv' = Built(shape', M!TableOf, M!OperandVocab, M!ArgVocab)

Made == shape.kind # "none"
RoundTrip == Made => M!RoundTrip
Conserved == Made => M!Conserved
CanonicalNames == Made => M!CanonicalNames
RolesOnly == Made => M!RolesOnly
SideEffects == Made => M!SideEffects
PlansSound == Made => M!PlansSound

\* the flags once more, as a single word where all of them have one letter
OneLetter(c) == SelectSeq(M!TableOf(c).flags, LAMBDA f : \E i \in 1..Len(f) : Len(f[i]) = 2)
BundleOf(c, n, off) == LET fs == OneLetter(c)
                           letter(f) == Ch(CHOOSE s \in RangeOf(f) : Len(s) = 2, 2)
                       IN  "-" \o Concat([i \in 1..n |-> letter(Cyclic(fs, n, off)[i])])
Bundled == shape.kind = "flags" /\ OneLetter(shape.cmd) # <<>>
BundleLine == JoinWith(<<shape.cmd, BundleOf(shape.cmd, shape.n, shape.off)>> \o [i \in 1..Len(inv.ops) |-> M!Shell(inv.ops[i])], " ")
BundleRead == Bundled => LET p == M!ParseLine(BundleLine) IN p.ok /\ Len(p.inv.fos) = shape.n /\ M!Canonical(p.inv)
Emit == Made => M!Emit /\ (IF Bundled THEN PrintT("CASE " \o ToJson([line |-> BundleLine])) ELSE TRUE)
=============================================================================
