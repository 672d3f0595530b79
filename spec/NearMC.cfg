INIT Init
NEXT Next
INVARIANTS Emit
