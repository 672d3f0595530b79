-------------------------------- MODULE AnnMC --------------------------------
(* Builds invocations of the annotated commands, flag by flag, option by     *)
(* option, operand by operand, checks the specification itself on them and   *)
(* prints each as command line, to be replayed into the real code.           *)
(* Bounds: W2 operands after two flags, W1 after one, W0 without;            *)
(* RICH = "1" pairs all flags, otherwise pairs need one which matters.       *)
EXTENDS Text, Tables, Lexer, Parser, IOInfo, Para, TLC, Json, IOUtils

MaxFos == Number(IOEnv.MAXFOS)
MaxOps(k) == CASE k = 0 -> Number(IOEnv.W0) [] k = 1 -> Number(IOEnv.W1) [] OTHER -> Number(IOEnv.W2)
Rich == IOEnv.RICH = "1"

Lookalikes == {"Sort", "Cat", "CAT", "cat ", " sort", "grep\n", "./cat", "ca", "catt", "custom-sort", "None", "_Interface", "cat.json", "Test_One"}
\* annotated commands without a table of flags and options
Tableless == {"bigrams_aux", "bigram_aux_map", "bigram_aux_reduce", "alt_bigrams_aux", "alt_bigram_aux_reduce", "set_diff", "test_one", "test_two"}
NoTableCommands == {"nosuchcommand", "/usr/bin/sort", "_sort"} \cup Lookalikes
Commands == DOMAIN Table \cup Tableless \cup NoTableCommands
Only == IOEnv.ONLY
WithPlans == {"sort", "custom_sort", "grep", "cut", "tr", "uniq", "sed", "xargs", "col", "bigrams_aux", "alt_bigrams_aux",
              "set_diff", "custom_tr", "test_one", "test_two"}
\* the flags and options which the rules of IOInfo and Para mention
Relevant == {"-e", "-f", "-q", "-r", "-R", "-i", "-E", "-t", "-o", "--files0-from", "-c", "-d", "-s", "-z", "-u", "-m", "-C",
             "-D", "--random-source", "--debug", "--sort", "-k", "--null", "--delimiter", "-a", "-A", "-B", "-H", "-L", "-l", "-n", "-b", "-T"}
\* "options": options only; "matter": flags and options which some rule mentions only
Scope == CASE Only = "" -> (IF IOEnv.SIM = "1" THEN Commands \ Lookalikes ELSE Commands)
           [] Only = "matter" -> { c \in DOMAIN Table : Cardinality({ e \in RangeOf(TableOf(c).flags) : e[1] \in Relevant }) > 2 }
           [] Only = "options" -> { c \in DOMAIN Table : TableOf(c).options # <<>> } [] Only = "plans" -> WithPlans [] OTHER -> {Only}

VARIABLES inv
vars == <<inv>>

TrSets == {"a-z", "\\n", "\n", "[:space:]", "[:alpha:]", "\\012", " -~", "A\\-Z", "\\1-z", "x\\\\n", "[:cntrl:]", "\t-\r"}
SedScripts == {"s/a/b/", "d", "$d", "5q", "p", "sd/q", "y/a/b/", "/x/!d"}

OperandVocab(cmd) ==
    CASE cmd \in {"tr", "custom_tr"} -> TrSets
      [] cmd = "sed" -> SedScripts \cup {"f1", "-"}
      [] cmd = "seq" -> {"1", "10", "-"}
      [] cmd = "grep" -> {"p*t", "-", "f1", ""}
      [] cmd \in {"awk", "xargs"} -> {"{print $1}", "-", "f1"}
      [] OTHER -> {"-", "f1", "g 2"}

ArgVocab(cmd, opt) ==
    CASE cmd = "sed" /\ opt = "-e" -> {"s/a/b/", "d", "5q"}
      [] cmd = "sort" /\ opt = "--sort" -> {"random", "r", "numeric", "month"}
      [] cmd = "custom_sort" /\ opt = "--sort" -> {"random", "general-numeric"}
      [] cmd \in {"sort", "custom_sort"} /\ opt = "-k" -> {"1", "2R", "1,3n"}
      [] OTHER -> {"f1", "-"}

Matters(e) == e[2] \in Relevant

AllEntries(cmd) ==
    (IF Only = "options" THEN {} ELSE { Flag(s[1]) : s \in RangeOf(TableOf(cmd).flags) })
    \cup UNION { { Opt(o.sp[1], a) : a \in ArgVocab(cmd, o.sp[1]) } : o \in RangeOf(TableOf(cmd).options) }

Entries(cmd) == IF Only = "matter" THEN { e \in AllEntries(cmd) : Matters(e) } ELSE AllEntries(cmd)

Init == \E c \in Scope : inv = [cmd |-> c, fos |-> <<>>, ops |-> <<>>]

AddFlagOrOption ==
    /\ inv.ops = <<>> /\ Len(inv.fos) < MaxFos
    /\ \E e \in Pick(Entries(inv.cmd)) :
         /\ IF Rich \/ inv.fos = <<>> THEN TRUE ELSE Matters(e) \/ \E k \in 1..Len(inv.fos) : Matters(inv.fos[k])
         /\ inv' = [inv EXCEPT !.fos = Append(@, e)]

AddOperand ==
    /\ Len(inv.ops) < MaxOps(Len(inv.fos))
    /\ \E w \in Pick(OperandVocab(inv.cmd)) : inv' = [inv EXCEPT !.ops = Append(@, w)]

Next == AddFlagOrOption \/ AddOperand
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Plain == Uppers \cup Lowers \cup Digits \cup CharsOf("-_./,=:+@%^")
Shell(w) == IF w # "" /\ CharsOf(w) \subseteq Plain THEN w ELSE QuoteSingle(w)
Line == JoinWith([k \in 1..Len(Unparse(inv)) |-> Shell(Unparse(inv)[k])], " ")

(* The specification itself                                                  *)
RoundTrip == LET p == ParseLine(Line) IN p.ok /\ p.inv = inv
Conserved == LET lx == Lex(Line) IN lx.ok /\ Conserves(lx.words, ParseWords(lx.words))
CanonicalNames == Canonical(ParseLine(Line).inv)
RolesOnly == LET i == Info(inv) IN i.some => AppliesTo(i, inv)
\* a stream is read from standard input only if none is read from an operand, unless the command always reads it
StdinOnce == LET i == Info(inv)
             IN  i.some /\ i.si # "none" /\ inv.cmd \notin {"col", "test_one", "test_two", "bigrams_aux", "alt_bigrams_aux"}
                   => \A t \in RangeOf(i.ops) : AccessOf(t) # "STREAM_INPUT"
SideEffects == LET i == Info(inv)
               IN  i.some => (i.other <=> \E t \in RangeOf(i.ops) \cup RangeOf(i.fos) : AccessOf(t) = "OTHER_OUTPUT")
PlansSound == LET p == StoredPlans(inv)
              IN  /\ \A k \in 1..Len(p.plans) : PlanOk(p.plans[k])
                  /\ p.comm => \A k \in 1..Len(p.plans) : p.plans[k][1] = CC
                  /\ Len(Inferred(p)) = Len(p.plans) + (IF p.comm THEN Len(p.plans) ELSE 0)
PlansNeedStreams == \* whatever is parallelized is a function of streams
              LET p == StoredPlans(inv)
              IN  Info(inv).some /\ p.plans # <<>> => inv.cmd \notin {"mv", "rm", "mkfifo", "tee", "seq", "diff", "comm"}

Emit == PrintT("CASE " \o ToJson([line |-> Line]))
=============================================================================
