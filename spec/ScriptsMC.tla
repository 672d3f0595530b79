------------------------------ MODULE ScriptsMC ------------------------------
(* Arguments in small languages of their own, on which plans depend: sets of *)
(* tr, scripts of sed, keys and orders of sort.  They are written character  *)
(* by character, and put into every place where the command takes them.      *)
EXTENDS Text, Json

MaxLen == Number(IOEnv.MAXLEN)
MoreTr == IF IOEnv.RICH = "1" THEN {"3", "x", "\t", "[:space:]", "[:alpha:]", "[:cntrl:]", "]", "8"} ELSE {}

Languages == {"set", "octal", "escape", "script", "key", "order"}
Alphabet(lang) ==
    CASE lang = "set" -> {"\\", "1", "2", "n", "-", "a", "\n", " "} \cup MoreTr
      [] lang = "octal" -> {"\\", "0", "1", "2"}
      [] lang = "escape" -> {"\\a", "\\b", "\\t", "\\n", "\\v", "\\f", "\\r", "\\7", "\\8", "\\011", "\\013", "-"}
      [] lang = "script" -> {"s", "d", "q", "/", "2", "p", ";"}
      [] lang = "key" -> {"1", ",", "R", "n", "."}
      [] lang = "order" -> {"r", "a", "n", "R"}
\* an escape is written at once
Length(lang) == CASE lang = "octal" -> MaxLen + 1 [] lang = "escape" -> MaxLen + 2 [] OTHER -> MaxLen

VARIABLES lang, text, frame
F(n) == <<"F", n>>
O(n, a) == <<"O", n, a>>
Sets(t) == { <<"tr", <<>>, <<t>>>>, <<"tr", <<>>, <<t, "a">>>>, <<"tr", <<F("-d")>>, <<t>>>>, <<"tr", <<F("-c"), F("-d")>>, <<t>>>>, <<"tr", <<F("-s")>>, <<t>>>>,
             <<"tr", <<F("-s")>>, <<t, "b">>>>, <<"tr", <<F("-s")>>, <<"a", t>>>>, <<"tr", <<F("-c"), F("-s")>>, <<t, "b">>>>, <<"tr", <<F("-c"), F("-s")>>, <<"a", t>>>>,
             <<"tr", <<F("-d"), F("-s")>>, <<t, "b">>>>, <<"tr", <<F("-s"), F("-d")>>, <<"b", t>>>>, <<"tr", <<F("-c"), F("-d"), F("-s")>>, <<"b", t>>>> }
Frames(l, t) ==
    CASE l \in {"set", "octal"} -> Sets(t)
      [] l = "escape" -> { <<"tr", <<>>, <<t>>>>, <<"tr", <<F("-d")>>, <<t>>>>, <<"tr", <<F("-c"), F("-s")>>, <<"a", t>>>> }
      [] l = "script" -> { <<"sed", <<>>, <<t>>>>, <<"sed", <<>>, <<t, "f1">>>>, <<"sed", <<O("-e", t)>>, <<>>>>, <<"sed", <<O("-e", "p"), O("-e", t)>>, <<>>>>, <<"sed", <<O("-e", t), O("-e", "p")>>, <<"d">>>> }
      [] l = "key" -> { <<"sort", <<O("-k", t)>>, <<>>>>, <<"sort", <<O("-k", "1"), O("-k", t)>>, <<>>>>, <<"sort", <<O("--sort", "month"), O("-k", t)>>, <<>>>>, <<"sort", <<O("-t", t)>>, <<>>>> }
      [] l = "order" -> { <<"sort", <<O("--sort", t)>>, <<>>>>, <<"sort", <<O("--sort", t), O("--sort", "month")>>, <<>>>> }
Apt(l, t) == l = "order" \/ t # ""
Dashed(t) == StartsWith(t, "-")

Init == lang \in Languages /\ text = "" /\ frame = <<>>
Write == frame = <<>> /\ Len(text) < Length(lang) /\ \E c \in Pick(Alphabet(lang)) : text' = text \o c /\ UNCHANGED <<lang, frame>>
Place == frame = <<>> /\ Apt(lang, text) /\ \E f \in Frames(lang, text) : frame' = f /\ UNCHANGED <<lang, text>>
Next == Write \/ Place

M == INSTANCE AnnMC WITH inv <- [cmd |-> frame[1], fos |-> frame[2], ops |-> frame[3]]
\* a word which starts with "-" may be one of the command's flags
Known == frame # <<>> /\ (lang \in {"set", "octal", "escape"} => ~Dashed(text))
RoundTrip == Known => M!RoundTrip
Plans == Known => M!PlansSound
\* adding an element to a set does not remove the newline from it
Grows == [][frame = <<>> /\ lang = "set" /\ text' # text /\ ~EndsWith(text, "\\") /\ ~EndsWith(text, "-") /\ CharsOf(text) \cap {"["} = {} /\ ~(\E d \in Octals : EndsWith(text, d))
            => (M!SetHasNewline(text) => M!SetHasNewline(text'))]_<<lang, text, frame>>
Emit == Known => M!Emit
=============================================================================
