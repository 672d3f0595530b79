INIT Init
NEXT Next
INVARIANTS Usable Emit
PROPERTIES Grows
