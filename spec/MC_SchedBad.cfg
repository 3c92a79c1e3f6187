SPECIFICATION Spec
INVARIANT Functional
CONSTANT Shared = TRUE
CHECK_DEADLOCK FALSE
CONSTRAINT Few
