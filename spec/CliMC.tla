-------------------------------- MODULE CliMC --------------------------------
(* Runs of the tool interleaved with other processes, printed for replay.    *)
EXTENDS Cli, Json, IOUtils

MaxActs == Number(IOEnv.ACTS)
\* reports of many sizes, up to several hundred thousand characters
Long(start, n) == start \o Concat([i \in 1..n |-> " f" \o ToString(i % 7)])
Lines == << "sort -r f1", "rm f1", "xyz a b", "cat 'é ü' -", "grep -c a f1", "sort -k 1 -n f1 -", "echo 'a", "cut -d , -f 1,2",
            "tr a 'b\nc'", "uniq -c f1 f2", "tee -a f1", "wc", "comm -1 f1 f2", "sed -e s/a/b/ f1", "mv -t f1 f2", "grep",
            "diff f1 -", "bigrams_aux", "sort -o f1 f2", "xargs -n 1 echo a", "cat", "seq 1 3", "awk -f f1 f2", "mkfifo p",
            "", "tail -f f1", "custom_sort -n", "set_diff f1", "head -n 2 ''", "sort \"f 1\" 'f\"2'",
        Long("cat", 40), Long("sort -n", 700) >>
Shorter == { Lines[k] : k \in 1..31 }
Forms == {"plain", "sub", "up", "dot", "absolute", "elsewhere", "spaces", "dash", "linked", "bare", "nowhere"}
PathNames == {"tilde", "home", "dollar", "blanks", "accents", "lines", "pattern", "braces", "hidden", "longest", "backslash", "doubled", "url"}
Encodings == {"utf8", "c", "ascii", "raw"}

\* which part of the state space: forms and lines, or schedules, or real runs
Part == IOEnv.PART

VARIABLES init, limited, form, line, line2, enc, pc, s, acts, out1, out2
vars == <<init, limited, form, line, line2, enc, pc, s, acts, out1, out2>>

Init == /\ init \in Inits /\ limited \in BOOLEAN
        /\ IF Part = "schedules"
           THEN form = "plain" /\ line = Lines[1] /\ line2 = "cat -n" /\ enc = "utf8"
           ELSE /\ form \in Pick(Forms \cup PathNames) /\ line \in Pick(IF Part = "forms" THEN RangeOf(Lines) ELSE Shorter) /\ line2 \in Pick({"cat -n", "rm f7", "echo \"x"})
                /\ (IF Part = "real" THEN enc \in Pick(Encodings) /\ ~limited ELSE enc = "utf8")
                /\ (IF Part = "forms" THEN (line \notin Shorter => form \in {"plain", "nowhere", "linked"} /\ init \in {"absent", "file"}) /\ (form \in PathNames => line \in {Lines[1], Lines[2], Lines[7]}) /\ line2 = "cat -n" /\ (limited => form = "plain") ELSE TRUE)
        /\ (limited => init \in {"absent", "noparent", "file"})
        /\ (form = "nowhere" => init = "absent")
        /\ (init = "unwritable" => Part # "real")
        /\ pc = "start" /\ acts = <<>> /\ out1 = "none" /\ out2 = "none"
        /\ s = [kind |-> init, own |-> "init", limited |-> limited]

Parsed(l) == Len(l) > 500 \/ ParseLine(l).ok   \* the long ones are checked against the code later
Saves == form # "nowhere"
Moment == CASE pc = "start" -> 0 [] pc = "ready" -> 1 [] pc = "created" -> 2 [] pc = "written" -> 3
Doing(as) == [k \in 1..Len(as) |-> as[k].act]

Other(a) ==
    /\ pc \in {"start", "ready", "created", "written"} /\ Len(acts) < MaxActs
    /\ (a = "tool" => out2 = "none" /\ init # "unwritable")
    /\ (init \in Hopeless => a = "tool")
    /\ (Part = "real" => pc = "start" /\ a # "tool")
    /\ acts' = Append(acts, [at |-> Moment, act |-> a])
    /\ IF a = "tool"
       THEN LET r == IF Saves THEN Save(s, "t2", Parsed(line2)) ELSE [s |-> s, out |-> IF Parsed(line2) THEN "printed" ELSE "lost"]
            IN  s' = r.s /\ out2' = r.out
       ELSE s' = Act(s, a) /\ out2' = out2
    /\ UNCHANGED <<init, limited, form, line, line2, enc, pc, out1>>

Tool ==
    /\ \/ /\ pc = "start" /\ pc' = "ready" /\ UNCHANGED <<s, out1>>
       \/ /\ pc = "ready"
          /\ LET r == IF Saves THEN Save(s, "t1", Parsed(line)) ELSE [s |-> s, out |-> IF Parsed(line) THEN "printed" ELSE "lost"]
             IN  s' = r.s /\ out1' = r.out /\ pc' = IF r.s # s THEN "created" ELSE "done"
       \/ /\ pc = "created" /\ pc' = "written" /\ UNCHANGED <<s, out1>>
       \/ /\ pc = "written" /\ pc' = "done" /\ UNCHANGED <<s, out1>>
    /\ UNCHANGED <<init, limited, form, line, line2, enc, acts, out2>>

Next == Tool \/ \E a \in Pick(Actions) : Other(a)

\* a complete report ends up exactly where it is said to
NeverLost == pc = "done" => /\ Parsed(line) => out1 \in {"stored", "printed"}
                            /\ out1 = "stored" => s.kind = "file" /\ s.own = "t1"
                            /\ out2 = "stored" => s.kind = "file" /\ s.own = "t2"
\* what is there is never replaced by the tool
NeverReplaced == [][Tool /\ s' # s => s.kind = "absent"]_vars
Foreseen == pc = "done" => [kind |-> s.kind, own |-> s.own, out1 |-> out1, out2 |-> out2]
                \in Ends([kind |-> init, own |-> "init", limited |-> limited], Doing(acts),
                         Cardinality({ k \in 1..Len(acts) : acts[k].at = 0 }), Saves, Parsed(line), Parsed(line2))
Emit == (pc = "done" /\ (Part \in {"schedules", "mixed"} => acts # <<>>))
            => PrintT("CASE " \o ToJson([init |-> init, limited |-> limited, form |-> form, line |-> line, line2 |-> line2,
                                         enc |-> enc, real |-> Part = "real", acts |-> acts, tokens |-> Tokens(line)]))
=============================================================================
