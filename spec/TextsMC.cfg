INIT Init
NEXT Next
INVARIANTS RoundTrip Conserved CanonicalNames RolesOnly SideEffects PlansSound Emit
