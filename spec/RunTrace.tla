------------------------------ MODULE RunTrace ------------------------------
(* Behaviours of DataflowMC, replayed with the plans of the real code and    *)
(* real commands: records [line, text, parts, order, expected, seq, got],    *)
(* where seq is what the real command printed for the text, got what the     *)
(* real plan made of the parts.                                              *)
EXTENDS Text, Judge
Clauses(r) == (IF r.seq # r.expected THEN {"semantics"} ELSE {}) \cup (IF r.got # r.seq THEN {"result"} ELSE {})
Check == l <= N => LET r == Records[l] IN Report(r, Clauses(r), r.expected)
=============================================================================
