INIT Init
NEXT Next
INVARIANTS RoundTrip Plans Emit
PROPERTY Grows
