-------------------------------- MODULE HandMC --------------------------------
(* Invocations built by hand instead of parsed: with flags and options which *)
(* the command's table does not have, or in the place of one without a       *)
(* table, with words which the parser would read differently as operands,    *)
(* and with operands of any kind.                                            *)
EXTENDS Text, Json

MaxFos == Number(IOEnv.MAXFOS)
MaxOps == Number(IOEnv.MAXOPS)

VARIABLES inv
vars == <<inv>>
M == INSTANCE AnnMC

\* the tables which commands without flags and options of their own would have
Like(cmd) == CASE cmd = "custom_sort" -> "sort" [] cmd = "custom_tr" -> "tr" [] OTHER -> cmd
Foreign(cmd) == { <<"F", "-Z">>, <<"F", "--no-such-flag">>, <<"O", "-Z", "f1">>, <<"O", "--no-such-option", "-">> }
                \cup (IF cmd \in DOMAIN M!Table THEN {} ELSE { <<"F", "-n">>, <<"F", "-o">>, <<"O", "-k", "1">>, <<"O", "-o", "f1">> })
Entries(cmd) == M!AllEntries(Like(cmd)) \cup Foreign(cmd)
Words(cmd) == M!OperandVocab(cmd) \cup {"-n", "--reverse", "-k", "--", "", "a b", "-rn"}
Commands == DOMAIN M!Table \cup M!Tableless \cup {"", "nosuchcommand", "Sort"}

Init == \E c \in Commands : inv = [cmd |-> c, fos |-> <<>>, ops |-> <<>>]
AddFlagOrOption == inv.ops = <<>> /\ Len(inv.fos) < MaxFos /\ \E e \in Pick(Entries(inv.cmd)) : inv' = [inv EXCEPT !.fos = Append(@, e)]
AddOperand == Len(inv.ops) + Len(inv.fos) < MaxOps + (IF inv.fos = <<>> THEN 0 ELSE 1) /\ \E w \in Pick(Words(inv.cmd)) : inv' = [inv EXCEPT !.ops = Append(@, w)]
Next == AddFlagOrOption \/ AddOperand

RolesOnly == M!RolesOnly
StdinOnce == M!StdinOnce
SideEffects == M!SideEffects
PlansSound == M!PlansSound
\* whatever is not in the table is refused if it is an option
Unknown == (\E k \in 1..Len(inv.fos) : inv.fos[k][1] = "O" /\ EndsWith(inv.fos[k][2], "Z")) => ~M!Info(inv).some
Emit == PrintT("CASE " \o ToJson(inv))
=============================================================================
