INIT Init
NEXT Next
INVARIANTS Own Emit
