INIT Init
NEXT Next
INVARIANT Law
CHECK_DEADLOCK FALSE
