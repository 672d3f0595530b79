------------------------------- MODULE TransMC -------------------------------
(* Builds lists of entries and transformers, and chains of them, checks laws *)
(* of Transform, and prints every pair to be replayed.                       *)
EXTENDS Transformers, Json

MaxLen == Number(IOEnv.MAXLEN)
MaxParts == Number(IOEnv.MAXPARTS)

Entry == {<<"F", "-a">>, <<"F", "-b">>, <<"O", "-a", "x">>, <<"O", "-a", "y">>, <<"OV", "-c", "v3">>, <<"OS", "-b", "x">>, <<"F", "--ab">>}
NameLists == {<<>>, <<"-a">>, <<"-b", "-c">>, <<"-c", "-d">>, <<"-b", "-b">>, <<"--a", "-A">>, <<"--ab">>}
Lists == {<<>>, << <<"F", "-a">> >>, << <<"O", "-a", "x">>, <<"F", "-d">> >>, << <<"OV", "-c", "v3">> >>, << <<"OV", "-c", "v4">>, <<"OS", "-b", "x">> >>}
Simple == {TSame, TEmpty} \cup {TAdd(s) : s \in Lists} \cup {TCustom(s) : s \in Lists}
          \cup {TRemove(s) : s \in NameLists} \cup {TFilter(s) : s \in NameLists}

VARIABLES fos, parts, nested
vars == <<fos, parts, nested>>
Init == fos = <<>> /\ parts = <<>> /\ nested = FALSE
AddEntry == parts = <<>> /\ Len(fos) < MaxLen /\ \E e \in Pick(Entry) : fos' = Append(fos, e) /\ UNCHANGED <<parts, nested>>
AddPart == Len(parts) < (IF nested THEN MaxParts - 1 ELSE MaxParts) /\ \E t \in Pick(Simple) : parts' = Append(parts, t) /\ UNCHANGED <<fos, nested>>
Nest == Len(parts) >= 2 /\ ~nested /\ parts' = <<TChain(SubSeq(parts, 1, 2))>> \o SubSeq(parts, 3, Len(parts)) /\ nested' = TRUE /\ UNCHANGED fos
Next == AddEntry \/ AddPart \/ Nest

Whole == IF Len(parts) = 1 THEN parts[1] ELSE TChain(parts)

(* Laws *)
IsSubSeqOf(s, t) == \* s arises from t by dropping entries
    LET RECURSIVE sub(_, _)
        sub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                     ELSE IF Head(a) = Head(b) THEN sub(Tail(a), Tail(b)) ELSE sub(a, Tail(b))
    IN  sub(s, t)
Laws == \A t \in RangeOf(parts) :
          /\ t.k \in {"remove", "filter", "empty", "same"} => IsSubSeqOf(Transform(t, fos), fos)
          /\ t.k # "chain" => Transform(t, Transform(t, fos)) = Transform(t, fos)
          /\ t.k = "add" => SubSeq(Transform(t, fos), 1, Len(fos)) = fos /\ RangeOf(t.list) \subseteq RangeOf(Transform(t, fos))
          /\ t.k = "remove" => /\ Len(Transform(t, fos)) + Len(Transform(TFilter(t.names), fos)) = Len(fos)
                               /\ \A e \in RangeOf(Transform(t, fos)) : e[2] \notin RangeOf(t.names)
Composition == \A k \in 1..Len(parts) :
          Transform(Whole, fos) = TransformAll(SubSeq(parts, k, Len(parts)), TransformAll(SubSeq(parts, 1, k - 1), fos))
Emit == PrintT("CASE " \o ToJson([fos |-> fos, t |-> Whole]))
=============================================================================
