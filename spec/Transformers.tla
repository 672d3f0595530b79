---------------------------- MODULE Transformers ----------------------------
(* Transformers of lists of flags and options.  Entries are tuples           *)
(*   <<"F", name>>  <<"O", name, argument>>  <<"OV", name, stream>>          *)
(*   <<"OS", name, string>>                                                  *)
(* A transformer is a record [k, names, list, parts]; kinds: same, add,      *)
(* remove, filter, empty, custom, chain.                                     *)
EXTENDS Text

T(k, names, list, parts) == [k |-> k, names |-> names, list |-> list, parts |-> parts]
TSame == T("same", <<>>, <<>>, <<>>)
TAdd(list) == T("add", <<>>, list, <<>>)
TRemove(names) == T("remove", names, <<>>, <<>>)
TFilter(names) == T("filter", names, <<>>, <<>>)
TEmpty == T("empty", <<>>, <<>>, <<>>)
TCustom(list) == T("custom", <<>>, list, <<>>)
TChain(parts) == T("chain", <<>>, <<>>, parts)

RECURSIVE Transform(_, _), TransformAll(_, _)
Transform(t, fos) ==
    CASE t.k = "same" -> fos
      [] t.k = "add" -> fos \o SelectSeq(t.list, LAMBDA e : e \notin RangeOf(fos))
      [] t.k = "remove" -> SelectSeq(fos, LAMBDA e : e[2] \notin RangeOf(t.names))
      [] t.k = "filter" -> SelectSeq(fos, LAMBDA e : e[2] \in RangeOf(t.names))
      [] t.k = "empty" -> <<>>
      [] t.k = "custom" -> t.list
      [] t.k = "chain" -> TransformAll(t.parts, fos)
TransformAll(ts, fos) == IF ts = <<>> THEN fos ELSE TransformAll(Tail(ts), Transform(Head(ts), fos))
=============================================================================
