INIT Init
NEXT Next
INVARIANTS RoundTrip Conserved CanonicalNames RolesOnly StdinOnce SideEffects PlansSound PlansNeedStreams Emit
