------------------------------- MODULE Catalog -------------------------------
(* Invocations of the commands with meaning in Commands, and texts for them. *)
EXTENDS Commands

Fl(names) == { <<"F", n>> : n \in names }
Op(name, args) == { <<"O", name, a>> : a \in args }

Pieces0(cmd) == \* the flags and options combined
    CASE cmd = "grep" -> Fl({"-v", "-i", "-x", "-w", "-o", "-F", "-c", "-q", "-n", "-b", "-H", "-h", "-l", "-L", "-z", "-s", "-E", "-a", "--line-buffered", "-0", "-1"})
                         \cup Op("-e", {"a"}) \cup Op("-m", {"1"}) \cup Op("-A", {"1"}) \cup Op("-B", {"1"}) \cup Op("-C", {"1"}) \cup Op("-f", {"f2"})
      [] cmd = "cut" -> Fl({"-s", "--complement", "-z", "-n"}) \cup Op("-c", {"1", "2-"}) \cup Op("-b", {"1"}) \cup Op("-f", {"1", "2", "1,3"})
                        \cup Op("-d", {" ", "a"}) \cup Op("--output-delimiter", {"x"})
      [] cmd = "tr" -> Fl({"-c", "-d", "-s", "-t"})
      [] cmd = "sort" -> Fl({"-r", "-n", "-f", "-b", "-d", "-u", "-s", "-m", "-c", "-z", "-R", "-g", "-h", "-M", "-i"}) \cup Op("-o", {"f5"}) \cup Op("--parallel", {"2"})
                         \cup Op("-k", {"2", "1,1", "2n", "1,1r"}) \cup Op("-t", {"a"}) \cup Op("--sort", {"numeric", "random"})
      [] cmd = "uniq" -> Fl({"-c", "-d", "-u", "-D", "-i"}) \cup Op("-f", {"1"}) \cup Op("-s", {"1"}) \cup Op("-w", {"1"})
      [] cmd = "sed" -> Fl({"-n", "-E", "-u", "-s"}) \cup Op("-e", {"s/a/b/", "d", "p"})
      [] cmd = "xargs" -> Fl({"-r"}) \cup Op("-n", {"1", "2"}) \cup Op("-L", {"1"}) \cup Op("-I", {"{}"})
      [] cmd = "col" -> Fl({"-b", "-x"})
      [] cmd = "cat" -> Fl({"-n", "-b", "-s", "-E"})
      [] cmd \in {"head", "tail"} -> Op("-n", {"1", "2"})
      [] cmd = "wc" -> Fl({"-l", "-w", "-c", "-m", "-L"})
      [] OTHER -> {}
Operands0(cmd) ==
    CASE cmd = "grep" -> { <<>>, <<"a">>, <<"^b">>, <<"">> }
      [] cmd = "tr" -> { <<s>> : s \in {"a", "\\n", "[:space:]", " ", "\\t-\\r", "ab", "[:punct:]"} } \cup
             { <<s, t>> : s \in {"a", "a-c", "\\n", " ", "[:lower:]", "\\012", "[:space:]"}, t \in {"b", "\\n", " ", "[:upper:]", "\n"} }
      [] cmd = "sed" -> { <<>> } \cup { <<s>> : s \in SedKnown }
      [] cmd = "xargs" -> { <<"echo">>, <<"echo", "{}">>, <<"echo", "x{}y">> }
      [] cmd = "set_diff" -> { <<"f2">> }
      [] OTHER -> { <<>> }

\* the input may also be a file, "f4"
Files(cmd) == IF cmd \in {"tr", "custom_tr", "xargs", "col", "set_diff", "wc"} THEN { <<>> } ELSE { <<>>, <<"f4">> }
Operands(cmd) == { o \o f : o \in Operands0(cmd), f \in Files(cmd) }
Args(inv) == IF inv.ops # <<>> /\ Last(inv.ops) = "f4" THEN SubSeq(inv.ops, 1, Len(inv.ops) - 1) ELSE inv.ops
\* not the same output for parts, although plans are offered: see known_findings.txt
LineNumbered == {"=", "1p", "$p", "1s/a/b/", "N", "n", "H", "x", "s/a/b/;2q", "F"}
Suspicious(inv) == \/ inv.cmd = "cut" /\ (\E e \in RangeOf(inv.fos) : e[2] = "-z")
                   \/ inv.cmd = "xargs" /\ ~\E e \in RangeOf(inv.fos) : e[2] = "-I"
                   \/ inv.cmd = "sed" /\ RangeOf(inv.ops) \cap LineNumbered # {}

NumOf(inv, names) == Cardinality({ k \in 1..Len(inv.fos) : inv.fos[k][2] \in names })
Distinct(inv) == \A j, k \in 1..Len(inv.fos) : inv.fos[j][2] = inv.fos[k][2] => j = k \/ inv.fos[j][2] \in {"-e", "-k"}
\* invocations which the command accepts and Commands covers
Valid(inv) ==
    LET c == inv.cmd
        h(names) == NumOf(inv, names) > 0
        ops == Args(inv)
    IN  /\ Distinct(inv)
        /\ Suspicious(inv) => Len(inv.fos) <= (IF c = "sed" THEN 1 ELSE 2) /\ ops = inv.ops
        /\ c = "grep" => /\ ~h({"-E"}) \/ ~h({"-F"})
                         /\ h({"-v"}) => ~(ops = <<"">> /\ h({"-c"}))
                         /\ (ops = <<>>) = h({"-e", "-f"})
                         /\ h({"-0", "-1"}) => Len(inv.fos) = 1
                         /\ NumOf(inv, {"-A", "-B", "-C"}) > 0 => ~h({"-m", "-z"})
                         /\ h({"-z"}) => ~h({"-m", "-b", "-o", "-x", "-c", "-l", "-L"}) /\ ops # <<"^b">>
        /\ c = "cut" => /\ NumOf(inv, {"-c", "-b", "-f"}) = 1
                        /\ h({"-d", "-s", "--output-delimiter"}) => h({"-f"})
                        /\ h({"-z"}) => Len(inv.fos) <= 2
                        /\ h({"-n"}) => h({"-b"})
        /\ c = "tr" =>
             LET n == Len(ops) IN
             /\ h({"-d"}) => (n = 2) = h({"-s"})
             /\ ~h({"-d", "-s"}) => n = 2
             /\ h({"-c"}) /\ n = 2 => Len(TrSet(ops[2])) = 1
             /\ h({"-t"}) => ~h({"-d", "-c"}) /\ n = 2
             /\ n = 2 /\ ops[2] = "[:upper:]" => ops[1] = "[:lower:]"
             /\ n = 2 /\ ops[1] = "[:lower:]" => h({"-d"}) \/ ops[2] \in {"[:upper:]", "b", "\\n"}
             /\ n = 2 => ~(ops[2] = "[:upper:]" /\ h({"-c", "-d"}))
        /\ c \in {"sort", "custom_sort"} =>
             /\ NumOf(inv, {"-n", "-g", "-h", "-M", "--sort", "-R"}) <= 1
             /\ h({"-n", "-g", "-h", "-M", "--sort"}) => ~h({"-d", "-i"})
             /\ h({"-z"}) => ~h({"-k", "-t", "-b", "-d", "-i"})
             /\ h({"-c"}) => ~h({"-m", "-o"})
        /\ c = "uniq" => ~(h({"-c"}) /\ h({"-D"})) /\ ~(h({"-u"}) /\ h({"-D", "-d"})) /\ ~(h({"-D"}) /\ h({"-d"}))
        /\ c = "sed" => (ops = <<>>) = h({"-e"})
        /\ c = "xargs" => /\ NumOf(inv, {"-n", "-L", "-I"}) <= 1
                          /\ Len(ops) = 2 => h({"-I"})
        /\ c = "cat" => TRUE

(* Texts                                                                     *)
LinesFor(cmd) ==
    CASE cmd \in {"sort", "custom_sort"} -> {"", "a", "B", "10", "9 a", "b 2"}
      [] cmd = "tr" -> {"", "a", "aa", "b a", "c"}
      [] cmd = "xargs" -> {"", "a", "b a", " "}
      [] cmd = "grep" -> {"", "a", "b", "A a", "ba"}
      [] cmd = "uniq" -> {"", "a", "A", "b a"}
      [] cmd = "cat" -> {"", "a", "b"}
      [] OTHER -> {"", "a", "b a", "ab c b"}
RECURSIVE SeqsOver(_, _)
SeqsOver(S, n) == IF n = 0 THEN {<<>>} ELSE SeqsOver(S, n - 1) \cup { Append(s, x) : s \in { t \in SeqsOver(S, n - 1) : Len(t) = n - 1 }, x \in S }
=============================================================================
