SPECIFICATION Spec
INVARIANTS Together Balanced Alternate
CHECK_DEADLOCK FALSE
