SPECIFICATION Spec
INVARIANT NoBad
CHECK_DEADLOCK FALSE
