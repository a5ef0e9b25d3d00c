SPECIFICATION Spec
INVARIANTS Decides Explains Clean NoSolveOnError Emit
CHECK_DEADLOCK FALSE
