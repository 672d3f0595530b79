INIT Init
NEXT Next
INVARIANTS TypeOK NoQuotes RoundTrip Conserved Emit
PROPERTY Grows
