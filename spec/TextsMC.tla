------------------------------- MODULE TextsMC -------------------------------
(* What a word says is data: the texts of a list (spec/texts.json: accents   *)
(* in two encodings, blanks at either end, names of devices, patterns, what  *)
(* looks like numbers, ...) as argument of options and as operand in every   *)
(* place, and many operands, for every command.                              *)
(* The text is kept apart (as a number) from the rest of the invocation,     *)
(* since TLC does not store all characters in states.                        *)
EXTENDS Text, Json

Texts == JsonDeserialize("texts.json")
Quick == IOEnv.RICH # "1"
Widths == {4, 5, 6, 8, 12} \cup (IF Quick THEN {} ELSE {7, 9, 10, 16, 40})
Hole == "@@"

VARIABLES frame, text
Filled == LET put(w) == IF w = Hole THEN Texts[text] ELSE w
          IN  [frame EXCEPT !.fos = [i \in 1..Len(@) |-> IF @[i][1] = "O" THEN <<"O", @[i][2], put(@[i][3])>> ELSE @[i]],
                            !.ops = [i \in 1..Len(@) |-> put(@[i])]]
M == INSTANCE AnnMC WITH inv <- Filled

\* commands without flags and options of their own are treated alike
Chosen == IF Quick THEN M!Commands \ (M!Lookalikes \cup {"nosuchcommand", "/usr/bin/sort", "_sort"}) ELSE M!Commands
Init == text = 0 /\ \E c \in Chosen : frame = [cmd |-> c, fos |-> <<>>, ops |-> <<>>]

OptionsOf(cmd) == { o.sp[1] : o \in RangeOf(M!TableOf(cmd).options) }
\* in the quick tier some options of a command: the first, and the relevant ones
SomeOptions(cmd) == IF Quick THEN (OptionsOf(cmd) \cap M!Relevant) \cup (IF OptionsOf(cmd) = {} THEN {} ELSE {M!TableOf(cmd).options[1].sp[1]})
                    ELSE OptionsOf(cmd)
Ordinary == CHOOSE w \in M!OperandVocab(frame.cmd) : w \notin {"-", ""}
Blank == frame.fos = <<>> /\ frame.ops = <<>>
Argument == Blank /\ \E o \in SomeOptions(frame.cmd) : \E t \in Pick(1..Len(Texts)) : frame' = [frame EXCEPT !.fos = <<M!Opt(o, Hole)>>] /\ text' = t
OneFlag == ~Quick /\ Blank /\ \E e \in M!Entries(frame.cmd) : M!Matters(e) /\ frame' = [frame EXCEPT !.fos = <<e>>] /\ UNCHANGED text
Operands == /\ frame.ops = <<>> /\ text = 0
            /\ \E t \in Pick(1..Len(Texts)) : \E ops \in {<<Hole>>, <<Ordinary, Hole>>, <<Hole, Ordinary>>, <<Ordinary, Ordinary, Hole>>} :
                 frame' = [frame EXCEPT !.ops = ops] /\ text' = t
Many == /\ Blank
        /\ \E n \in Widths : \E w \in {Ordinary, "-"} : \E i \in {1, n} :
             frame' = [frame EXCEPT !.ops = [j \in 1..n |-> IF j = i THEN w ELSE Ordinary]] /\ UNCHANGED text
Next == Argument \/ OneFlag \/ Operands \/ Many

RoundTrip == M!RoundTrip
Conserved == M!Conserved
CanonicalNames == M!CanonicalNames
RolesOnly == M!RolesOnly
SideEffects == M!SideEffects
PlansSound == M!PlansSound
Emit == M!Emit
=============================================================================
