------------------------------- MODULE IOInfo -------------------------------
(* Which files, streams and strings an invocation uses.                      *)
(*                                                                           *)
(* A typed word is <<"STR", t>>, <<"FILE", name, access>> or                 *)
(* <<"STD", "STDIN" or "STDOUT", access>>; a typed flag or option is         *)
(* <<"F", name>> or <<"O", name>> \o typed word.  The information about an    *)
(* invocation, already applied to it, is a record                            *)
(*   some : whether there is information                                     *)
(*   fos, ops : the typed flags and options, and operands                    *)
(*   si, so : access of the implicitly used standard input/output or "none"  *)
(*   other : whether there are outputs other than streams                    *)
EXTENDS Text, Tables, Parser

Inputs == {"CONFIG_INPUT", "STREAM_INPUT", "CONTAINER_FOR_INPUT", "EXCLUDES_FROM_INPUT", "OTHER_INPUT"}
Outputs == {"STREAM_OUTPUT", "OTHER_OUTPUT"}
Accesses == Inputs \cup Outputs

NoInfo == [some |-> FALSE, fos |-> <<>>, ops |-> <<>>, si |-> "none", so |-> "none", other |-> FALSE]

(* A word used as file                                                       *)
TypedFile(w, access) == IF w = "-" THEN <<"STD", IF access \in Inputs THEN "STDIN" ELSE "STDOUT", access>>
                                   ELSE <<"FILE", w, access>>
TypedStr(w) == <<"STR", w>>

TypedFo(cmd, e) == IF e[1] = "F" THEN e
                   ELSE LET a == OptFile(cmd)[e[2]]
                        IN  <<"O", e[2]>> \o (IF a = "none" THEN TypedStr(e[3]) ELSE TypedFile(e[3], a))

(* Options must be known under their canonical name                          *)
OptionsKnown(inv) == \A k \in 1..Len(inv.fos) : inv.fos[k][1] = "O" => inv.fos[k][2] \in DOMAIN OptFile(inv.cmd)

(* Roles of operands, as sequences of "STR" or an access                     *)
All(inv, role) == [k \in 1..Len(inv.ops) |-> role]
FirstRest(inv, f, r) == [k \in 1..Len(inv.ops) |-> IF k = 1 THEN f ELSE r]
RestLast(inv, r, l) == [k \in 1..Len(inv.ops) |-> IF k = Len(inv.ops) THEN l ELSE r]

Roles(some, roles, stdin, stdout) == [some |-> some, roles |-> roles, stdin |-> stdin, stdout |-> stdout]
Refused == Roles(FALSE, <<>>, FALSE, FALSE)

\* commands which filter their files, or standard input if there are none
FilterRoles(inv) == Roles(TRUE, All(inv, "STREAM_INPUT"), inv.ops = <<>>, TRUE)
\* commands whose first operand is a program or pattern, unless an option gives it
ProgramRoles(inv, byOption) ==
    IF byOption THEN Roles(TRUE, All(inv, "STREAM_INPUT"), inv.ops = <<>>, TRUE)
    ELSE IF inv.ops = <<>> THEN Refused
    ELSE Roles(TRUE, FirstRest(inv, "STR", "STREAM_INPUT"), Len(inv.ops) = 1, TRUE)
\* commands which read standard input and take only strings
StdinRoles(inv, role) == Roles(TRUE, All(inv, role), TRUE, TRUE)

CommandRoles(inv) ==
    LET n == Len(inv.ops)
        c == inv.cmd
    IN  CASE c \in {"cat", "cut", "head", "tail"} -> FilterRoles(inv)
          [] c = "wc" -> IF HasAny(inv, {"--files0-from"}) THEN Refused ELSE FilterRoles(inv)
          [] c \in {"sort", "custom_sort"} ->
               [FilterRoles(inv) EXCEPT !.stdin = n = 0 /\ ~HasAny(inv, {"--files0-from"}),
                                        !.stdout = ~HasAny(inv, {"-o"})]
          [] c = "grep" ->
               LET r == ProgramRoles(inv, HasAny(inv, {"-e", "-f"}))
               IN  IF r.some /\ r.stdin /\ HasAny(inv, {"-r", "-R"}) THEN Refused
                   ELSE IF r.some THEN [r EXCEPT !.stdout = ~HasAny(inv, {"-q"})] ELSE r
          [] c = "sed" -> IF HasAny(inv, {"-i"}) THEN Refused ELSE ProgramRoles(inv, HasAny(inv, {"-e", "-f"}))
          [] c = "awk" -> ProgramRoles(inv, HasAny(inv, {"-f", "-e", "-E"}))
          [] c \in {"tr", "custom_tr", "xargs"} -> StdinRoles(inv, "STR")
          [] c = "seq" -> Roles(TRUE, All(inv, "STR"), FALSE, TRUE)
          [] c = "tee" -> StdinRoles(inv, "STREAM_OUTPUT")
          [] c \in {"col", "test_one", "test_two", "bigrams_aux", "alt_bigrams_aux"} -> StdinRoles(inv, "STREAM_INPUT")
          [] c = "alt_bigram_aux_reduce" -> Roles(TRUE, All(inv, "STREAM_INPUT"), FALSE, TRUE)
          [] c = "set_diff" -> IF n = 1 THEN StdinRoles(inv, "CONFIG_INPUT") ELSE Refused
          [] c = "comm" -> IF n = 2 THEN Roles(TRUE, All(inv, "STREAM_INPUT"), FALSE, TRUE) ELSE Refused
          [] c = "diff" -> Roles(TRUE, All(inv, "STREAM_INPUT"), FALSE, TRUE)
          [] c = "uniq" -> IF n = 0 THEN FilterRoles(inv)
                           ELSE IF n = 1 THEN FilterRoles(inv)
                           ELSE IF n = 2 THEN Roles(TRUE, <<"STREAM_INPUT", "STREAM_OUTPUT">>, FALSE, FALSE)
                           ELSE Refused
          [] c \in {"rm", "mkfifo"} -> Roles(TRUE, All(inv, "OTHER_OUTPUT"), FALSE, FALSE)
          [] c = "mv" ->
               IF Count(inv, "-t") = 0
               THEN IF n = 0 THEN Refused ELSE Roles(TRUE, RestLast(inv, "OTHER_INPUT", "OTHER_OUTPUT"), FALSE, FALSE)
               ELSE IF Count(inv, "-t") = 1 THEN Roles(TRUE, All(inv, "OTHER_INPUT"), FALSE, FALSE)
               ELSE Refused
          [] OTHER -> Refused

TypedOp(w, role) == IF role = "STR" THEN TypedStr(w) ELSE TypedFile(w, role)

Info(inv) ==
    LET r == CommandRoles(inv)
        fos == [k \in 1..Len(inv.fos) |-> TypedFo(inv.cmd, inv.fos[k])]
        ops == [k \in 1..Len(inv.ops) |-> TypedOp(inv.ops[k], r.roles[k])]
        accesses == { e[Len(e)] : e \in { t \in RangeOf(ops) : t[1] # "STR" } }
                    \cup { e[Len(e)] : e \in { t \in RangeOf(fos) : t[1] = "O" /\ t[3] # "STR" } }
    IN  IF ~r.some \/ ~OptionsKnown(inv) THEN NoInfo
        ELSE [some |-> TRUE, fos |-> fos, ops |-> ops,
              si |-> IF r.stdin THEN "STREAM_INPUT" ELSE "none",
              so |-> IF r.stdout THEN "STREAM_OUTPUT" ELSE "none",
              other |-> "OTHER_OUTPUT" \in accesses]

-----------------------------------------------------------------------------
(* Application changes roles only: independent of the rules above            *)
TextOfTyped(t) == IF t[1] = "STD" THEN "-" ELSE t[2]
WellTyped(t, w) ==
    \/ Len(t) = 2 /\ t[1] = "STR" /\ t[2] = w
    \/ Len(t) = 3 /\ t[1] = "FILE" /\ w # "-" /\ t[2] = w /\ t[3] \in Accesses
    \/ Len(t) = 3 /\ t[1] = "STD" /\ w = "-" /\ \/ t[2] = "STDIN" /\ t[3] \in Inputs
                                                \/ t[2] = "STDOUT" /\ t[3] \in Outputs
AppliesTo(info, inv) ==
    /\ Len(info.fos) = Len(inv.fos)
    /\ Len(info.ops) = Len(inv.ops)
    /\ \A k \in 1..Len(inv.fos) :
         IF inv.fos[k][1] = "F" THEN info.fos[k] = inv.fos[k]
         ELSE /\ Len(info.fos[k]) >= 4 /\ info.fos[k][1] = "O" /\ info.fos[k][2] = inv.fos[k][2]
              /\ WellTyped(SubSeq(info.fos[k], 3, Len(info.fos[k])), inv.fos[k][3])
    /\ \A k \in 1..Len(inv.ops) : WellTyped(info.ops[k], inv.ops[k])

AccessOf(t) == IF t[1] \in {"FILE", "STD"} THEN t[3] ELSE IF t[1] = "O" /\ t[3] # "STR" THEN t[5] ELSE "none"
=============================================================================
