INIT Init
NEXT Next
INVARIANTS NeverLost Foreseen Emit
PROPERTIES NeverReplaced
