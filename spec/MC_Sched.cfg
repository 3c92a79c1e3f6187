SPECIFICATION Spec
INVARIANT Functional
CONSTANT Shared = FALSE
CHECK_DEADLOCK FALSE
CONSTRAINT Few
