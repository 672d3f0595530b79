INIT Init
NEXT Next
INVARIANTS Laws Emit EmitTable
