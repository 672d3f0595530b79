INIT Init
NEXT Next
INVARIANTS AllConsistent Emit
PROPERTIES ShapeKept OneAtATime Given Combined
