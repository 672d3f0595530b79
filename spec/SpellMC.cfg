INIT Init
NEXT Next
INVARIANTS SameMeaning Emit
