INIT Init
NEXT Next
INVARIANTS Table Laws Inverses
CHECK_DEADLOCK FALSE
