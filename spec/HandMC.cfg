INIT Init
NEXT Next
INVARIANTS RolesOnly StdinOnce SideEffects PlansSound Unknown Emit
