INIT Init
NEXT Next
INVARIANTS Law Emit
CHECK_DEADLOCK FALSE
