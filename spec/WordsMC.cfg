INIT Init
NEXT Next
INVARIANTS Lexed Conserved CanonicalNames Stable Agrees Emit
PROPERTY Incremental
