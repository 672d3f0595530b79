INIT Init
NEXT Next
INVARIANTS Laws Composition Emit
