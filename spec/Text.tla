-------------------------------- MODULE Text --------------------------------
(* Characters and strings.  TLC represents strings as sequences of           *)
(* characters, a character is a string of length 1.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

Ch(s, i) == SubSeq(s, i, i)

First(s) == IF s = "" THEN "" ELSE Ch(s, 1)

CharsOf(s) == { Ch(s, i) : i \in 1..Len(s) }

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

ContainsAt(s, p, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

Contains(s, p) == \E i \in 1..(Len(s) + 1) : ContainsAt(s, p, i)

Drop(s, n) == SubSeq(s, n + 1, Len(s))

RECURSIVE Concat(_)
Concat(seq) == IF seq = <<>> THEN "" ELSE Head(seq) \o Concat(Tail(seq))

RECURSIVE JoinWith(_, _)
JoinWith(seq, sep) == IF seq = <<>> THEN ""
                      ELSE IF Len(seq) = 1 THEN Head(seq)
                      ELSE Head(seq) \o sep \o JoinWith(Tail(seq), sep)

RangeOf(seq) == { seq[i] : i \in 1..Len(seq) }

Last(seq) == seq[Len(seq)]

RECURSIVE Flatten(_)
Flatten(seqs) == IF seqs = <<>> THEN <<>> ELSE Head(seqs) \o Flatten(Tail(seqs))

RECURSIVE NumberFrom(_, _, _)
NumberFrom(s, i, acc) == IF i > Len(s) THEN acc
                         ELSE NumberFrom(s, i + 1, 10 * acc + (CHOOSE d \in 0..9 : ToString(d) = Ch(s, i)))
Number(s) == NumberFrom(s, 1, 0)

(* In simulations one random choice is explored, otherwise all               *)
Pick(S) == IF IOEnv.SIM = "1" /\ S # {} THEN {RandomElement(S)} ELSE S

(* The printable characters in the order of their codes, starting at code 32 *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeTable == [c \in CharsOf(Ascii) |-> 31 + CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]

Code(c) == IF c = "\n" THEN 10 ELSE IF c = "\t" THEN 9 ELSE IF c = "\r" THEN 13 ELSE IF c = "\f" THEN 12
           ELSE IF c \in DOMAIN CodeTable THEN CodeTable[c] ELSE 200

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Octals == {"0", "1", "2", "3", "4", "5", "6", "7"}
Uppers == CharsOf("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Lowers == CharsOf("abcdefghijklmnopqrstuvwxyz")
Blanks == {" ", "\t", "\n"}
=============================================================================
