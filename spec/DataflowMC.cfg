INIT Init
NEXT Next
INVARIANTS Correct Invariant Emit
