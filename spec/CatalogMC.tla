------------------------------ MODULE CatalogMC ------------------------------
(* Prints the command lines of the catalogue and the texts of their command. *)
EXTENDS Catalog, Json
MaxFos == Number(IOEnv.MAXFOS)
MaxLines == Number(IOEnv.LINES)

VARIABLES inv, text
vars == <<inv, text>>
Init == inv \in { [cmd |-> c, fos |-> <<>>, ops |-> o] : c \in Modelled, o \in UNION {Operands(x) : x \in Modelled} }
        /\ inv.ops \in Operands(inv.cmd) /\ text = <<>>
AddPiece == text = <<>> /\ Len(inv.fos) < MaxFos /\ \E e \in Pick(Pieces0(inv.cmd)) : inv' = [inv EXCEPT !.fos = Append(@, e)] /\ UNCHANGED text
AddLine == Valid(inv) /\ Len(text) < MaxLines /\ \E l \in Pick(LinesFor(inv.cmd)) : text' = Append(text, l) /\ UNCHANGED inv
Next == AddPiece \/ AddLine

Plain == Uppers \cup Lowers \cup Digits \cup CharsOf("-_./,=:+@%^")
Shell(w) == IF w # "" /\ CharsOf(w) \subseteq Plain THEN w ELSE QuoteSingle(w)
Line == JoinWith([k \in 1..Len(Unparse(inv)) |-> Shell(Unparse(inv)[k])], " ")
Emit == Valid(inv) /\ (MaxLines = 0 \/ text # <<>>) =>
          /\ Assert(ParseLine(Line).inv = inv, Line)
          /\ PrintT("CASE " \o ToJson([line |-> Line, cmd |-> inv.cmd, text |-> text]))
=============================================================================
