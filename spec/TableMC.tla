------------------------------- MODULE TableMC -------------------------------
(* Every spelling of every table with every command, alone and before words, *)
(* printed as command lines; the specified tables are checked on the way.    *)
EXTENDS Text, Tables, Lexer, Parser, IOInfo, Json, IOUtils

Commands == DOMAIN Table \cup {"nosuchcommand", "test_one"}
AllSpellings == UNION { DOMAIN FlagCanon(c) \cup DOMAIN OptCanon(c) : c \in DOMAIN Table }

VARIABLES cmd, s, tail
vars == <<cmd, s, tail>>
Init == cmd \in Commands /\ s \in AllSpellings /\ tail = <<>>
Next == /\ tail = <<>> /\ UNCHANGED <<cmd, s>>
        /\ tail' \in { <<"w9">>, <<"-">>, <<"w9", "f1">>, <<"w9", "f1", "f2">>, <<s, "f1">> }

SpellingsIn(c) == DOMAIN FlagCanon(c) \cup DOMAIN OptCanon(c)
Dash(w) == Len(w) >= 2 /\ Ch(w, 1) = "-" /\ CharsOf(w) \cap (Blanks \cup {"=", "'", "\"", "\\"}) = {}
Own == s \in SpellingsIn(cmd) =>
    /\ Dash(s) /\ s # "--"
    \* in one entry, once
    /\ Cardinality({ k \in 1..Len(Table[cmd].flags) : s \in RangeOf(Table[cmd].flags[k]) })
         + Cardinality({ k \in 1..Len(Table[cmd].options) : s \in RangeOf(Table[cmd].options[k].sp) }) = 1
    /\ \A e \in RangeOf(Table[cmd].flags) : Cardinality({ k \in 1..Len(e) : e[k] = s }) <= 1
    \* the canonical spelling is its own canonical spelling
    /\ IsFlag(cmd, s) => FlagCanon(cmd)[FlagCanon(cmd)[s]] = FlagCanon(cmd)[s]
    /\ IsOption(cmd, s) => OptCanon(cmd)[OptCanon(cmd)[s]] = OptCanon(cmd)[s] /\ OptFile(cmd)[OptCanon(cmd)[s]] \in Accesses \cup {"none"}
Words == <<cmd, s>> \o tail
Emit == PrintT("CASE " \o ToJson([line |-> JoinWith(Words, " ")]))
=============================================================================
