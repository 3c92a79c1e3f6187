INIT Init
NEXT Next
INVARIANTS Anchored Teeth
CHECK_DEADLOCK FALSE
