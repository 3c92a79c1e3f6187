SPECIFICATION Spec
INVARIANTS Delivers Reports Prefix
PROPERTY Finishes
CHECK_DEADLOCK FALSE
