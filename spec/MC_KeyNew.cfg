SPECIFICATION Spec
INVARIANTS Returned Only Failed Classes
CHECK_DEADLOCK FALSE
