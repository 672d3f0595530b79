------------------------------ MODULE Commands ------------------------------
(* What the commands compute: a function from the text they read to the text *)
(* they write, for invocations over named streams                            *)
(*   "in1", "in2", ...  streams read,  "out" the stream written,             *)
(*   "file:NAME"        configuration files, with the content of FileText.   *)
(* Texts are strings; a record separator NUL is written "\r".                *)
(* Unmodelled(inv) tells for which invocations there is no meaning here.     *)
EXTENDS Text, Parser, IOInfo, IOVars, Integers

Nul == "\r"

-----------------------------------------------------------------------------
(* Texts and lines                                                           *)
RECURSIVE LinesFrom(_, _, _)
LinesFrom(s, i, j) == \* the line starting at i, read up to j
    IF j > Len(s) THEN IF i > Len(s) THEN <<>> ELSE <<SubSeq(s, i, Len(s))>>
    ELSE IF Ch(s, j) = "\n" THEN <<SubSeq(s, i, j - 1)>> \o LinesFrom(s, j + 1, j + 1)
    ELSE LinesFrom(s, i, j + 1)
LinesOf(s) == LinesFrom(s, 1, 1)
Terminated(s) == s = "" \/ EndsWith(s, "\n")
Unlines(ls) == Concat([k \in 1..Len(ls) |-> ls[k] \o "\n"])
\* lines as they are given, the last one possibly unterminated
Unlines2(ls, nl) == IF nl THEN Unlines(ls) ELSE JoinWith(ls, "\n")

MapLines(Op(_), s) == Unlines([k \in 1..Len(LinesOf(s)) |-> Op(LinesOf(s)[k])])

FileText(name) == CASE name = "f2" -> "a\nB\n" [] name = "f3" -> "" [] OTHER -> "x\n"

LowerTable == [c \in Uppers |-> Ch("abcdefghijklmnopqrstuvwxyz", Code(c) - 64)]
UpperTable == [c \in Lowers |-> Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", Code(c) - 96)]
MapChars(f, s) == Concat([k \in 1..Len(s) |-> IF Ch(s, k) \in DOMAIN f THEN f[Ch(s, k)] ELSE Ch(s, k)])
Lower(s) == MapChars(LowerTable, s)
Upper(s) == MapChars(UpperTable, s)
CharCodes == {9, 10} \cup 32..126
CharOf == [n \in CharCodes |-> IF n = 9 THEN "\t" ELSE IF n = 10 THEN "\n" ELSE Ch(Ascii, n - 31)]

RECURSIVE LeadingInt(_, _, _)
LeadingInt(s, i, acc) == IF i > Len(s) \/ Ch(s, i) \notin Digits THEN acc ELSE LeadingInt(s, i + 1, 10 * acc + Code(Ch(s, i)) - 48)
RECURSIVE SkipBlanks(_)
SkipBlanks(s) == IF s # "" /\ Ch(s, 1) \in {" ", "\t"} THEN SkipBlanks(Drop(s, 1)) ELSE s
NumericValue(s) == LET t == SkipBlanks(s) IN IF StartsWith(t, "-") THEN 0 - LeadingInt(t, 2, 0) ELSE LeadingInt(t, 1, 0)

\* -1, 0 or 1: the order of strings by codes
RECURSIVE CompareFrom(_, _, _)
CompareFrom(s, t, i) == IF i > Len(s) THEN IF i > Len(t) THEN 0 ELSE -1
                        ELSE IF i > Len(t) THEN 1
                        ELSE IF Ch(s, i) = Ch(t, i) THEN CompareFrom(s, t, i + 1)
                        ELSE IF Code(Ch(s, i)) < Code(Ch(t, i)) THEN -1 ELSE 1
Compare(s, t) == CompareFrom(s, t, 1)
CompareInt(m, n) == IF m < n THEN -1 ELSE IF m = n THEN 0 ELSE 1

-----------------------------------------------------------------------------
(* Invocations                                                               *)
\* the last of some flags given
LastOf(inv, names) == LET o == SelectSeq(inv.fos, LAMBDA e : e[2] \in names) IN IF o = <<>> THEN "" ELSE Last(o)[2]
Has(inv, name) == \E k \in 1..Len(inv.fos) : inv.fos[k][2] = name
HasOne(inv, names) == \E k \in 1..Len(inv.fos) : inv.fos[k][2] \in names
\* string arguments of an option, in order
StrArgs(inv, name) == LET o == SelectSeq(inv.fos, LAMBDA e : e[1] = "OS" /\ e[2] = name) IN [k \in 1..Len(o) |-> o[k][3]]
FileArgs(inv, name) == LET o == SelectSeq(inv.fos, LAMBDA e : e[1] = "OV" /\ e[2] = name) IN [k \in 1..Len(o) |-> o[k][3]]
LastArg(inv, name, default) == IF StrArgs(inv, name) = <<>> THEN default ELSE Last(StrArgs(inv, name))
Strings(inv) == LET o == SelectSeq(inv.ops, LAMBDA e : e[1] = "S") IN [k \in 1..Len(o) |-> o[k][2]]
IsStream(id) == StartsWith(id, "in")
StreamOps(inv) == LET o == SelectSeq(inv.ops, LAMBDA e : e[1] = "V" /\ IsStream(e[2])) IN [k \in 1..Len(o) |-> o[k][2]]
ConfigOps(inv) == LET o == SelectSeq(inv.ops, LAMBDA e : e[1] = "V" /\ StartsWith(e[2], "file:")) IN [k \in 1..Len(o) |-> Drop(o[k][2], 5)]
Read(inv) == IF StreamOps(inv) # <<>> THEN StreamOps(inv) ELSE IF inv.si # "none" THEN <<inv.si>> ELSE <<>>

-----------------------------------------------------------------------------
(* grep, with patterns that are literal but for ^ at the start and $ at the  *)
(* end (which are literal with -F)                                           *)
WordChar(c) == c \in Uppers \cup Lowers \cup Digits \cup {"_"}
RECURSIVE SplitNewline(_)
SplitNewline(s) == IF Contains(s, "\n")
                   THEN LET i == CHOOSE j \in 1..Len(s) : Ch(s, j) = "\n" /\ \A m \in 1..(j - 1) : Ch(s, m) # "\n"
                        IN  <<SubSeq(s, 1, i - 1)>> \o SplitNewline(Drop(s, i))
                   ELSE <<s>>
GrepPatterns(inv) ==
    LET es == StrArgs(inv, "-e")
        fs == FileArgs(inv, "-f")
        given == IF es # <<>> \/ fs # <<>> THEN es ELSE <<Strings(inv)[1]>>
    IN  Flatten([k \in 1..Len(given) |-> SplitNewline(given[k])])
        \o Flatten([k \in 1..Len(fs) |-> LinesOf(FileText(Drop(fs[k], 5)))])
\* positions where p matches l: <<from, to>>
Matches1(inv, p, l0) ==
    LET fixed == Has(inv, "-F")
        start == ~fixed /\ StartsWith(p, "^")
        end == ~fixed /\ EndsWith(p, "$")
        body0 == IF start THEN Drop(p, 1) ELSE p
        body1 == IF end /\ body0 # "" THEN SubSeq(body0, 1, Len(body0) - 1) ELSE body0
        body == IF Has(inv, "-i") THEN Lower(body1) ELSE body1
        l == IF Has(inv, "-i") THEN Lower(l0) ELSE l0
        fits(i) == /\ ContainsAt(l, body, i)
                   /\ start => i = 1
                   /\ end => i + Len(body) - 1 = Len(l)
                   /\ Has(inv, "-x") => i = 1 /\ Len(body) = Len(l)
                   /\ Has(inv, "-w") => /\ i = 1 \/ ~WordChar(Ch(l, i - 1))
                                        /\ i + Len(body) > Len(l) \/ ~WordChar(Ch(l, i + Len(body)))
    IN  { <<i, i + Len(body) - 1>> : i \in { j \in 1..(Len(l) + 1) : fits(j) } }
Matches(inv, l) == UNION { Matches1(inv, p, l) : p \in RangeOf(GrepPatterns(inv)) }
Selected(inv, l) == (Matches(inv, l) # {}) # Has(inv, "-v")
\* the parts of a line printed by -o: leftmost, then longest, not empty
RECURSIVE Pieces(_, _, _)
Pieces(ms, l, from) ==
    LET ok == { m \in ms : m[1] >= from /\ m[2] >= m[1] }
    IN  IF ok = {} THEN <<>>
        ELSE LET best == CHOOSE m \in ok : \A o \in ok : m[1] < o[1] \/ (m[1] = o[1] /\ m[2] >= o[2])
             IN  <<best>> \o Pieces(ms, l, best[2] + 1)

RECURSIVE UpToMax(_, _)
UpToMax(sel, m) == \* the first m of a list of numbers
    IF Len(sel) <= m THEN sel ELSE SubSeq(sel, 1, m)
IntArg(inv, name, default) == LET a == LastArg(inv, name, "") IN IF a = "" THEN default ELSE NumericValue(a)

RECURSIVE SumLen(_, _)
SumLen(ls, k) == IF k = 0 THEN 0 ELSE Len(ls[k]) + 1 + SumLen(ls, k - 1)

NumberFlags == { "-" \o d : d \in Digits }
Grep1(inv, name, s) == \* one input
    LET z == Has(inv, "-z")
        eol == IF z THEN Nul ELSE "\n"
        ls == IF z THEN IF s = "" THEN <<>> ELSE <<s>> ELSE LinesOf(s)
        m == IntArg(inv, "-m", 1000)
        selAll == SelectSeq([k \in 1..Len(ls) |-> k], LAMBDA k : Selected(inv, ls[k]))
        sel == UpToMax(selAll, m)
        around == IF HasOne(inv, NumberFlags) THEN NumericValue(Drop(LastOf(inv, NumberFlags), 1)) ELSE IntArg(inv, "-C", 0)
        after == IntArg(inv, "-A", around)
        before == IntArg(inv, "-B", around)
        context == before > 0 \/ after > 0 \/ HasOne(inv, {"-A", "-B", "-C"} \cup NumberFlags)
        isSel(k) == \E i \in 1..Len(sel) : sel[i] = k
        last == IF sel = <<>> THEN 0 ELSE Last(sel)
        shown(k) == isSel(k) \/ (~Has(inv, "-o") /\ \E i \in 1..Len(sel) : (k > sel[i] /\ k - sel[i] <= after /\ (k > last => ~Selected(inv, ls[k]) \/ TRUE)) \/ (k < sel[i] /\ sel[i] - k <= before))
        lines == SelectSeq([k \in 1..Len(ls) |-> k], LAMBDA k : shown(k))
        sep(k) == IF isSel(k) THEN ":" ELSE "-"
        prefix(k, offset) == (IF LastOf(inv, {"-H", "-h"}) = "-H" THEN name \o sep(k) ELSE "")
                     \o (IF Has(inv, "-n") THEN ToString(k) \o sep(k) ELSE "")
                     \o (IF Has(inv, "-b") THEN ToString(SumLen(ls, k - 1) + offset) \o sep(k) ELSE "")
        text(k) == IF Has(inv, "-o") THEN IF Has(inv, "-v") THEN ""
                                         ELSE LET ps == Pieces(Matches(inv, ls[k]), ls[k], 1)
                                              IN  Concat([i \in 1..Len(ps) |-> prefix(k, ps[i][1] - 1) \o SubSeq(ls[k], ps[i][1], ps[i][2]) \o eol])
                   ELSE prefix(k, 0) \o ls[k] \o eol
        gap(i) == IF context /\ i > 1 /\ lines[i] > lines[i - 1] + 1 THEN "--\n" ELSE ""
    IN  IF Has(inv, "-q") THEN ""
        ELSE IF LastOf(inv, {"-l", "-L"}) = "-l" THEN IF sel # <<>> THEN name \o "\n" ELSE ""
        ELSE IF Has(inv, "-L") THEN IF sel = <<>> THEN name \o "\n" ELSE ""
        ELSE IF Has(inv, "-c") THEN (IF LastOf(inv, {"-H", "-h"}) = "-H" THEN name \o ":" ELSE "") \o ToString(Len(sel)) \o "\n"
        ELSE Concat([i \in 1..Len(lines) |-> gap(i) \o text(lines[i])])

-----------------------------------------------------------------------------
(* cut                                                                       *)
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == IF ~Contains(s, c) THEN <<s>>
                 ELSE LET i == CHOOSE j \in 1..Len(s) : Ch(s, j) = c /\ \A m \in 1..(j - 1) : Ch(s, m) # c
                      IN  <<SubSeq(s, 1, i - 1)>> \o SplitAt(Drop(s, i), c)
InRange(range, n) == IF ~Contains(range, "-") THEN n = NumericValue(range)
                     ELSE LET p == SplitAt(range, "-")
                          IN  (p[1] = "" \/ n >= LeadingInt(p[1], 1, 0)) /\ (p[2] = "" \/ n <= LeadingInt(p[2], 1, 0))
InList(list, n) == \E r \in RangeOf(SplitAt(list, ",")) : InRange(r, n)
CutLine(inv, l) ==
    LET chars == IF StrArgs(inv, "-c") # <<>> THEN LastArg(inv, "-c", "") ELSE LastArg(inv, "-b", "")
        d == LastArg(inv, "-d", "\t")
        od == LastArg(inv, "--output-delimiter", d)
        keep(list, n) == InList(list, n) # Has(inv, "--complement")
        fields == SplitAt(l, d)
        kept == SelectSeq([k \in 1..Len(fields) |-> k], LAMBDA k : keep(LastArg(inv, "-f", "1"), k))
    IN  IF chars # "" THEN Concat([k \in 1..Len(l) |-> IF keep(chars, k) THEN Ch(l, k) ELSE ""])
        ELSE IF Len(fields) = 1 THEN l
        ELSE JoinWith([k \in 1..Len(kept) |-> fields[kept[k]]], od)
Cut(inv, s) ==
    LET z == Has(inv, "-z")
        ls == IF z THEN IF s = "" THEN <<>> ELSE <<s>> ELSE LinesOf(s)
        d == LastArg(inv, "-d", "\t")
        dropped(l) == Has(inv, "-s") /\ StrArgs(inv, "-f") # <<>> /\ ~Contains(l, d)
        kept == SelectSeq(ls, LAMBDA l : ~dropped(l))
    IN  Concat([k \in 1..Len(kept) |-> CutLine(inv, kept[k]) \o (IF z THEN Nul ELSE "\n")])

-----------------------------------------------------------------------------
(* tr                                                                        *)
ClassOf(s) == CASE s = "[:space:]" -> <<9, 10, 32>> [] s = "[:blank:]" -> <<9, 32>>
                [] s = "[:digit:]" -> [k \in 1..10 |-> 47 + k]
                [] s = "[:upper:]" -> [k \in 1..26 |-> 64 + k] [] s = "[:lower:]" -> [k \in 1..26 |-> 96 + k]
                [] s = "[:alpha:]" -> [k \in 1..52 |-> IF k <= 26 THEN 64 + k ELSE 70 + k]
                [] s = "[:punct:]" -> << 33, 44, 46 >>
                [] s = "[:cntrl:]" -> <<9, 10>>
Classes == {"[:space:]", "[:blank:]", "[:digit:]", "[:upper:]", "[:lower:]", "[:alpha:]", "[:cntrl:]", "[:punct:]"}
RECURSIVE TrCodes(_)
TrCodes(elems) ==
    IF elems = <<>> THEN <<>>
    ELSE IF Len(elems) >= 3 /\ elems[2].dash
    THEN [k \in 1..(elems[3].code - elems[1].code + 1) |-> elems[1].code + k - 1] \o TrCodes(SubSeq(elems, 4, Len(elems)))
    ELSE <<elems[1].code>> \o TrCodes(Tail(elems))
TrSet(s) == IF s \in Classes THEN ClassOf(s) ELSE TrCodes(TrElems(s, 1))
RECURSIVE Squeeze(_, _)
Squeeze(cs, set) == IF Len(cs) < 2 THEN cs
                    ELSE IF cs[1] = cs[2] /\ cs[1] \in set THEN Squeeze(Tail(cs), set)
                    ELSE <<cs[1]>> \o Squeeze(Tail(cs), set)
Tr(inv, s) ==
    LET cs == [k \in 1..Len(s) |-> Code(Ch(s, k))]
        o == Strings(inv)
        one == TrSet(o[1])
        two == IF Len(o) > 1 THEN TrSet(o[2]) ELSE <<>>
        within == IF Has(inv, "-c") THEN CharCodes \ RangeOf(one) ELSE RangeOf(one)
        target == RangeOf(two)
        lastOf(c) == CHOOSE k \in 1..Len(one) : one[k] = c /\ \A j \in (k + 1)..Len(one) : one[j] # c
        to(c) == IF c \notin within THEN c
                 ELSE IF Has(inv, "-c") THEN Last(two)
                 ELSE LET k == lastOf(c)
                      IN  IF k <= Len(two) THEN two[k] ELSE IF Has(inv, "-t") THEN c ELSE Last(two)
        translated == [k \in 1..Len(cs) |-> to(cs[k])]
        deleted == SelectSeq(cs, LAMBDA c : c \notin within)
        result == IF Has(inv, "-d") THEN IF Has(inv, "-s") THEN Squeeze(deleted, target) ELSE deleted
                  ELSE IF two = <<>> THEN Squeeze(cs, within)
                  ELSE IF Has(inv, "-s") THEN Squeeze(translated, target) ELSE translated
    IN  Concat([k \in 1..Len(result) |-> CharOf[result[k]]])

-----------------------------------------------------------------------------
(* sort                                                                      *)
KeyLetters == {"b", "d", "f", "g", "i", "M", "h", "n", "r", "R", "V"}
SortWord(w) == CASE w = "numeric" -> "n" [] w = "general-numeric" -> "g" [] w = "human-numeric" -> "h" [] w = "month" -> "M" [] OTHER -> "V"
GlobalLetters(inv) == { c \in KeyLetters : Has(inv, "-" \o c) } \cup { SortWord(w) : w \in RangeOf(StrArgs(inv, "--sort")) }
\* a key "F1[opts][,F2[opts]]": first and last field (0: to the end) and letters
RECURSIVE DigitsLen(_)
DigitsLen(s) == IF s = "" \/ Ch(s, 1) \notin Digits THEN 0 ELSE 1 + DigitsLen(Drop(s, 1))
KeyOf(k) ==
    LET p == SplitAt(k, ",")
        n1 == DigitsLen(p[1])
        n2 == IF Len(p) > 1 THEN DigitsLen(p[2]) ELSE 0
    IN  [from |-> LeadingInt(p[1], 1, 0), to |-> IF Len(p) > 1 THEN LeadingInt(p[2], 1, 0) ELSE 0,
         letters |-> CharsOf(Drop(p[1], n1)) \cup (IF Len(p) > 1 THEN CharsOf(Drop(p[2], n2)) ELSE {})]
\* fields as parts of the line; without a separator blanks start a field
RECURSIVE BlankFields(_, _, _)
BlankFields(l, i, j) ==
    IF j > Len(l) THEN IF i > Len(l) THEN <<>> ELSE <<SubSeq(l, i, Len(l))>>
    ELSE IF j > i /\ Ch(l, j) \in {" ", "\t"} /\ Ch(l, j - 1) \notin {" ", "\t"} THEN <<SubSeq(l, i, j - 1)>> \o BlankFields(l, j, j + 1)
    ELSE BlankFields(l, i, j + 1)
KeyText(inv, key, l) ==
    LET t == LastArg(inv, "-t", "")
        fs == IF t = "" THEN BlankFields(l, 1, 1) ELSE SplitAt(l, t)
        to == IF key.to = 0 \/ key.to > Len(fs) THEN Len(fs) ELSE key.to
    IN  IF key.from > to THEN "" ELSE JoinWith(SubSeq(fs, key.from, to), t)
CompareBy(letters, s0, t0) ==
    LET b(s) == IF letters \cap {"b", "n", "g", "h", "M"} # {} THEN SkipBlanks(s) ELSE s
        f(s) == IF "f" \in letters THEN Upper(s) ELSE s
        d(s) == IF "d" \in letters THEN Concat([k \in 1..Len(s) |-> IF (WordChar(Ch(s, k)) /\ Ch(s, k) # "_") \/ Ch(s, k) \in {" ", "\t"} THEN Ch(s, k) ELSE ""]) ELSE s
        c == IF letters \cap {"n", "g", "h"} # {} THEN CompareInt(NumericValue(s0), NumericValue(t0))
             ELSE IF "M" \in letters THEN 0
             ELSE Compare(f(d(b(s0))), f(d(b(t0))))
    IN  IF "r" \in letters THEN 0 - c ELSE c
RECURSIVE CompareKeys(_, _, _, _)
CompareKeys(inv, keys, s, t) ==
    IF keys = <<>> THEN 0
    ELSE LET k == KeyOf(Head(keys))
             letters == IF k.letters = {} THEN GlobalLetters(inv) ELSE k.letters
             c == CompareBy(letters, KeyText(inv, k, s), KeyText(inv, k, t))
         IN  IF c # 0 THEN c ELSE CompareKeys(inv, Tail(keys), s, t)
SortCompare(inv, s, t) ==
    LET keys == StrArgs(inv, "-k")
        c == IF keys = <<>> THEN CompareBy(GlobalLetters(inv), s, t) ELSE CompareKeys(inv, keys, s, t)
    IN  IF c # 0 \/ HasOne(inv, {"-u", "-s"}) THEN c
        ELSE IF Has(inv, "-r") THEN 0 - Compare(s, t) ELSE Compare(s, t)
RECURSIVE Insert(_, _, _), InsertionSort(_, _), Merge(_, _, _), Dedup(_, _)
Insert(inv, l, ls) == IF ls = <<>> \/ SortCompare(inv, l, Head(ls)) <= 0 THEN <<l>> \o ls ELSE <<Head(ls)>> \o Insert(inv, l, Tail(ls))
InsertionSort(inv, ls) == IF ls = <<>> THEN <<>> ELSE Insert(inv, Head(ls), InsertionSort(inv, Tail(ls)))
Merge(inv, a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                    ELSE IF SortCompare(inv, Head(a), Head(b)) <= 0 THEN <<Head(a)>> \o Merge(inv, Tail(a), b)
                    ELSE <<Head(b)>> \o Merge(inv, a, Tail(b))
Dedup(inv, ls) == IF Len(ls) < 2 THEN ls
                  ELSE IF SortCompare(inv, ls[1], ls[2]) = 0 THEN Dedup(inv, <<ls[1]>> \o SubSeq(ls, 3, Len(ls)))
                  ELSE <<ls[1]>> \o Dedup(inv, Tail(ls))
RECURSIVE MergeAll(_, _)
MergeAll(inv, lss) == IF lss = <<>> THEN <<>> ELSE IF Len(lss) = 1 THEN lss[1] ELSE Merge(inv, Head(lss), MergeAll(inv, Tail(lss)))
Sort(inv, texts) ==
    LET z == Has(inv, "-z")
        recs(s) == IF z THEN IF s = "" THEN <<>> ELSE <<s>> ELSE LinesOf(s)
        all == Flatten([k \in 1..Len(texts) |-> recs(texts[k])])
        sorted == IF Has(inv, "-m") THEN MergeAll(inv, [k \in 1..Len(texts) |-> recs(texts[k])]) ELSE InsertionSort(inv, all)
        res == IF Has(inv, "-u") THEN Dedup(inv, sorted) ELSE sorted
    IN  IF HasOne(inv, {"-c", "-C"}) THEN ""
        ELSE Concat([k \in 1..Len(res) |-> res[k] \o (IF z THEN Nul ELSE "\n")])

-----------------------------------------------------------------------------
(* uniq                                                                      *)
RECURSIVE SkipField(_), SkipFields(_, _)
SkipField(s) == LET t == SkipBlanks(s) IN
                IF t = "" THEN "" ELSE LET i == { j \in 1..Len(t) : Ch(t, j) \in {" ", "\t"} }
                                       IN  IF i = {} THEN "" ELSE Drop(t, (CHOOSE j \in i : \A m \in i : j <= m) - 1)
SkipFields(s, n) == IF n = 0 THEN s ELSE SkipFields(SkipField(s), n - 1)
UniqKey(inv, l) ==
    LET f == SkipFields(l, IntArg(inv, "-f", 0))
        s == Drop(f, IntArg(inv, "-s", 0))
        w == IF StrArgs(inv, "-w") = <<>> THEN s ELSE SubSeq(s, 1, IF Len(s) < IntArg(inv, "-w", 0) THEN Len(s) ELSE IntArg(inv, "-w", 0))
    IN  IF Has(inv, "-i") THEN Lower(w) ELSE w
RECURSIVE GroupsBy(_, _)
GroupsBy(inv, ls) ==
    IF ls = <<>> THEN <<>>
    ELSE LET rest == GroupsBy(inv, Tail(ls))
         IN  IF rest # <<>> /\ UniqKey(inv, Head(ls)) = UniqKey(inv, rest[1][1])
             THEN <<<<Head(ls)>> \o rest[1]>> \o Tail(rest)
             ELSE <<<<Head(ls)>>>> \o rest
Padded(n) == CASE n < 10 -> "      " \o ToString(n) [] OTHER -> "     " \o ToString(n)
Uniq(inv, s) ==
    LET gs == GroupsBy(inv, LinesOf(s))
        kept == SelectSeq(gs, LAMBDA g : (HasOne(inv, {"-d", "-D"}) => Len(g) > 1) /\ (Has(inv, "-u") => Len(g) = 1))
    IN  IF Has(inv, "-D") THEN Unlines(Flatten(kept))
        ELSE Unlines([k \in 1..Len(kept) |-> (IF Has(inv, "-c") THEN Padded(Len(kept[k])) \o " " ELSE "") \o kept[k][1]])

-----------------------------------------------------------------------------
(* sed: scripts of one command; [addr, cmd, x, y, g]                         *)
SedProgram(script) ==
    LET p(addr, cmd, x, y, g) == [addr |-> addr, cmd |-> cmd, x |-> x, y |-> y, g |-> g]
    IN  CASE script = "s/a/b/" -> p("", "s", "a", "b", FALSE)
          [] script = "s/a/b/g" -> p("", "s", "a", "b", TRUE)
          [] script = "s/a//" -> p("", "s", "a", "", FALSE)
          [] script = "s/b/dq/" -> p("", "s", "b", "dq", FALSE)
          [] script = "s/^/x/" -> p("", "s", "^", "x", FALSE)
          [] script = "s/$/x/" -> p("", "s", "$", "x", FALSE)
          [] script = "y/ab/ba/" -> p("", "y", "ab", "ba", FALSE)
          [] script = "/a/p" -> p("/a", "p", "", "", FALSE)
          [] script = "/a/s/a/b/" -> p("/a", "s", "a", "b", FALSE)
          [] script = "/a/d" -> p("/a", "d", "", "", FALSE)
          [] script = "p" -> p("", "p", "", "", FALSE)
          [] script = "d" -> p("", "d", "", "", FALSE)
          [] script = "1d" -> p("1", "d", "", "", FALSE)
          [] script = "$d" -> p("$", "d", "", "", FALSE)
          [] script = "q" -> p("", "q", "", "", FALSE)
          [] script = "2q" -> p("2", "q", "", "", FALSE)
          [] script = "1p" -> p("1", "p", "", "", FALSE)
          [] script = "$p" -> p("$", "p", "", "", FALSE)
          [] script = "=" -> p("", "=", "", "", FALSE)
          [] script = "G" -> p("", "G", "", "", FALSE)
          [] script = "1s/a/b/" -> p("1", "s", "a", "b", FALSE)
          [] OTHER -> p("", "?", "", "", FALSE)
SedKnown == {"s/a/b/", "s/a/b/g", "s/a//", "s/b/dq/", "s/^/x/", "s/$/x/", "y/ab/ba/", "/a/p", "/a/s/a/b/", "/a/d", "p", "d", "1d", "$d", "q", "2q",
             "1p", "$p", "=", "G", "1s/a/b/"}
RECURSIVE SubstAll(_, _, _)
SubstAll(l, x, y) == IF ~Contains(l, x) THEN l
                     ELSE LET i == CHOOSE j \in 1..Len(l) : ContainsAt(l, x, j) /\ \A m \in 1..(j - 1) : ~ContainsAt(l, x, m)
                          IN  SubSeq(l, 1, i - 1) \o y \o SubstAll(Drop(l, i + Len(x) - 1), x, y)
SubstOne(l, x, y) == IF x = "^" THEN y \o l ELSE IF x = "$" THEN l \o y
                     ELSE IF ~Contains(l, x) THEN l
                     ELSE LET i == CHOOSE j \in 1..Len(l) : ContainsAt(l, x, j) /\ \A m \in 1..(j - 1) : ~ContainsAt(l, x, m)
                          IN  SubSeq(l, 1, i - 1) \o y \o Drop(l, i + Len(x) - 1)
Transliterate(l, x, y) == Concat([k \in 1..Len(l) |-> LET c == Ch(l, k) IN
                              IF c = Ch(x, 1) THEN Ch(y, 1) ELSE IF c = Ch(x, 2) THEN Ch(y, 2) ELSE c])
SedScriptsOf(inv) == IF StrArgs(inv, "-e") # <<>> THEN StrArgs(inv, "-e") ELSE <<Strings(inv)[1]>>
\* one script on line k of n: what is printed first, the pattern space or nothing, quit?
SedLine(inv, prog, l, k, n) ==
    LET at == CASE prog.addr = "" -> TRUE [] prog.addr = "1" -> k = 1 [] prog.addr = "2" -> k = 2 [] prog.addr = "$" -> k = n
                [] prog.addr = "/a" -> Contains(l, "a")
        r(out, keep, ps, quit) == [out |-> out, keep |-> keep, ps |-> ps, quit |-> quit, held |-> FALSE]
    IN  IF ~at THEN r(<<>>, TRUE, l, FALSE)
        ELSE CASE prog.cmd = "s" -> r(<<>>, TRUE, IF prog.g THEN SubstAll(l, prog.x, prog.y) ELSE SubstOne(l, prog.x, prog.y), FALSE)
               [] prog.cmd = "y" -> r(<<>>, TRUE, Transliterate(l, prog.x, prog.y), FALSE)
               [] prog.cmd = "p" -> r(<<l>>, TRUE, l, FALSE)
               [] prog.cmd = "d" -> r(<<>>, FALSE, l, FALSE)
               [] prog.cmd = "q" -> r(<<>>, TRUE, l, TRUE)
               [] prog.cmd = "=" -> r(<<ToString(k) \o "\n">>, TRUE, l, FALSE)
               [] prog.cmd = "G" -> [r(<<>>, TRUE, l \o "\n", FALSE) EXCEPT !.held = TRUE]
RECURSIVE SedScripts(_, _, _, _, _, _)
SedScripts(inv, scripts, l, k, n, out) == \* runs the scripts on one line
    IF scripts = <<>> THEN [out |-> out, keep |-> TRUE, ps |-> l, quit |-> FALSE, held |-> FALSE]
    ELSE LET s == SedLine(inv, SedProgram(Head(scripts)), l, k, n)
         IN  IF ~s.keep \/ s.quit THEN [s EXCEPT !.out = out \o @]
             ELSE LET t == SedScripts(inv, Tail(scripts), s.ps, k, n, out \o s.out) IN [t EXCEPT !.held = @ \/ s.held]
RECURSIVE SedFrom(_, _, _)
SedFrom(inv, s, k) ==
    LET ls == LinesOf(s)
        n == Len(ls)
        r == SedScripts(inv, SedScriptsOf(inv), ls[k], k, n, <<>>)
        \* an unterminated last line stays so, but what is printed before it is terminated
        \* (except for sed quitting there or having appended the hold space)
        nl == IF k = n /\ ~Terminated(s) /\ ~r.quit /\ ~r.held THEN "" ELSE "\n"
        shown == r.keep /\ ~Has(inv, "-n")
        items == [i \in 1..Len(r.out) |-> r.out[i]] \o (IF shown THEN <<r.ps>> ELSE <<>>)
        text == Concat([i \in 1..Len(items) |-> IF EndsWith(items[i], "\n") /\ i <= Len(r.out) THEN items[i]
                                               ELSE items[i] \o (IF i = Len(items) THEN nl ELSE "\n")])
    IN  IF k > n THEN ""
        ELSE text \o (IF r.quit THEN "" ELSE SedFrom(inv, s, k + 1))
Sed(inv, s) == SedFrom(inv, s, 1)

-----------------------------------------------------------------------------
(* xargs with echo                                                           *)
RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, i, j) ==
    IF j > Len(s) THEN IF i < j THEN <<SubSeq(s, i, j - 1)>> ELSE <<>>
    ELSE IF Ch(s, j) \in Blanks THEN (IF i < j THEN <<SubSeq(s, i, j - 1)>> ELSE <<>>) \o WordsFrom(s, j + 1, j + 1)
    ELSE WordsFrom(s, i, j + 1)
WordsOf(s) == WordsFrom(s, 1, 1)
RECURSIVE Batches(_, _)
Batches(ws, n) == IF Len(ws) <= n THEN IF ws = <<>> THEN <<>> ELSE <<ws>> ELSE <<SubSeq(ws, 1, n)>> \o Batches(SubSeq(ws, n + 1, Len(ws)), n)
Xargs(inv, s) ==
    LET replace == StrArgs(inv, "-I") # <<>>
        lines == SelectSeq(LinesOf(s), LAMBDA l : SkipBlanks(l) # "")
        n == IntArg(inv, "-n", 1000)
        batches == IF StrArgs(inv, "-L") # <<>> THEN LET g == Batches(lines, IntArg(inv, "-L", 1))
                                                     IN  [k \in 1..Len(g) |-> Flatten([i \in 1..Len(g[k]) |-> WordsOf(g[k][i])])]
                   ELSE Batches(WordsOf(s), n)
        before == Tail(Strings(inv))
        echo(args) == JoinWith(before \o args, " ") \o "\n"
        replaced(l) == JoinWith([k \in 1..Len(before) |-> SubstAll(before[k], LastArg(inv, "-I", "{}"), SkipBlanks(l))], " ") \o "\n"
    IN  IF replace THEN Concat([k \in 1..Len(lines) |-> replaced(lines[k])])
        ELSE IF batches = <<>> THEN IF Has(inv, "-r") THEN "" ELSE echo(<<>>)
        ELSE Concat([k \in 1..Len(batches) |-> echo(batches[k])])

-----------------------------------------------------------------------------
(* The rest                                                                  *)
RECURSIVE CatFrom(_, _, _, _)
CatFrom(inv, s, k, n) ==
    LET ls == LinesOf(s)
        number == IF Has(inv, "-b") THEN ls[k] # "" ELSE Has(inv, "-n")
        skipped == Has(inv, "-s") /\ k > 1 /\ ls[k] = "" /\ ls[k - 1] = ""
        nl == IF k = Len(ls) /\ ~Terminated(s) THEN "" ELSE (IF HasOne(inv, {"-E"}) THEN "$\n" ELSE "\n")
    IN  IF k > Len(ls) THEN ""
        ELSE IF skipped THEN CatFrom(inv, s, k + 1, n)
        ELSE (IF number THEN "     " \o ToString(n) \o "\t" ELSE "") \o ls[k] \o nl \o CatFrom(inv, s, k + 1, IF number THEN n + 1 ELSE n)
Head2(inv, s) == LET ls == LinesOf(s) n == IntArg(inv, "-n", 10)
                 IN  IF StrArgs(inv, "-c") # <<>> THEN SubSeq(s, 1, IF Len(s) < IntArg(inv, "-c", 0) THEN Len(s) ELSE IntArg(inv, "-c", 0))
                     ELSE IF n >= Len(ls) THEN s ELSE Unlines(SubSeq(ls, 1, n))
Tail2(inv, s) == LET ls == LinesOf(s) n == IntArg(inv, "-n", 10)
                 IN  IF n >= Len(ls) THEN s ELSE Unlines2(SubSeq(ls, Len(ls) - n + 1, Len(ls)), Terminated(s))
Pad7(n) == LET t == ToString(n) IN SubSeq("       ", 1, 7 - Len(t)) \o t
Wc(inv, s) ==
    LET none == ~HasOne(inv, {"-l", "-w", "-c", "-m", "-L"})
        newlines == Len(SelectSeq([k \in 1..Len(s) |-> Ch(s, k)], LAMBDA c : c = "\n"))
        longest == LET ls == LinesOf(s) IN IF ls = <<>> THEN 0 ELSE CHOOSE n \in { Len(ls[k]) : k \in 1..Len(ls) } : \A k \in 1..Len(ls) : Len(ls[k]) <= n
        counts == (IF none \/ Has(inv, "-l") THEN <<newlines>> ELSE <<>>) \o (IF none \/ Has(inv, "-w") THEN <<Len(WordsOf(s))>> ELSE <<>>)
                  \o (IF Has(inv, "-m") THEN <<Len(s)>> ELSE <<>>) \o (IF none \/ Has(inv, "-c") THEN <<Len(s)>> ELSE <<>>)
                  \o (IF Has(inv, "-L") THEN <<longest>> ELSE <<>>)
    IN  IF Len(counts) = 1 THEN ToString(counts[1]) \o "\n" ELSE JoinWith([k \in 1..Len(counts) |-> Pad7(counts[k])], " ") \o "\n"
RECURSIVE Rstrip(_)
Rstrip(l) == IF EndsWith(l, " ") \/ EndsWith(l, "\t") THEN Rstrip(SubSeq(l, 1, Len(l) - 1)) ELSE l

-----------------------------------------------------------------------------
Modelled == {"grep", "cut", "tr", "sort", "custom_sort", "uniq", "sed", "xargs", "col", "set_diff", "cat", "head", "tail", "wc"}
\* differs from run to run
Random(inv) == inv.cmd \in {"sort", "custom_sort"} /\
               ( \/ HasOne(inv, {"-R"})
                 \/ \E k \in 1..Len(inv.fos) : \/ inv.fos[k][2] = "--sort" /\ StartsWith("random", Last(inv.fos[k]))
                                               \/ inv.fos[k][2] = "-k" /\ Contains(Last(inv.fos[k]), "R"))

(* in: texts of the streams, by name; names: what they are called            *)
RunOn(inv, in, names) ==
    LET ids == Read(inv)
        texts == [k \in 1..Len(ids) |-> in[ids[k]]]
        s == Concat(texts)
    IN  CASE inv.cmd = "grep" -> Concat([k \in 1..Len(ids) |-> Grep1(inv, names[ids[k]], texts[k])])
          [] inv.cmd = "cut" -> Concat([k \in 1..Len(ids) |-> Cut(inv, texts[k])])
          [] inv.cmd \in {"tr", "custom_tr"} -> Tr(inv, s)
          [] inv.cmd \in {"sort", "custom_sort"} -> Sort(inv, texts)
          [] inv.cmd = "uniq" -> Uniq(inv, s)
          [] inv.cmd = "sed" -> Sed(inv, s)
          [] inv.cmd = "xargs" -> Xargs(inv, s)
          [] inv.cmd = "col" -> MapLines(Rstrip, s)
          [] inv.cmd = "set_diff" -> Unlines(SelectSeq(LinesOf(s), LAMBDA l : l \notin RangeOf(LinesOf(FileText(ConfigOps(inv)[1])))))
          [] inv.cmd = "cat" -> CatFrom(inv, s, 1, 1)
          [] inv.cmd = "head" -> Head2(inv, s)
          [] inv.cmd = "tail" -> Tail2(inv, s)
          [] inv.cmd = "wc" -> Wc(inv, s)

(* The invocation of a line with named streams; defined if it reads one      *)
Named(inv) ==
    LET v == WithVars(inv.cmd, Info(inv))
        texts(id) == LET fosAt == { k \in 1..Len(inv.fos) : v.fos[k][1] = "OV" /\ v.fos[k][3] = id }
                         opsAt == { k \in 1..Len(inv.ops) : v.ops[k][1] = "V" /\ v.ops[k][2] = id }
                     IN  IF fosAt # {} THEN inv.fos[CHOOSE k \in fosAt : TRUE][3]
                         ELSE IF opsAt # {} THEN inv.ops[CHOOSE k \in opsAt : TRUE] ELSE "-"
        name(p) == CASE p[2] = "STREAM_INPUT" -> "in1" [] p[2] = "STREAM_OUTPUT" -> "out" [] OTHER -> "file:" \o texts(p[1])
        ren == [id \in Recorded(v) |-> name(CHOOSE p \in v.acc : p[1] = id)]
    IN  Rename(v, ren)
OneStream(inv) == Info(inv).some /\ LET v == WithVars(inv.cmd, Info(inv)) IN Len(InVars(v)) = 1 /\ Len(OutVars(v)) = 1
=============================================================================
