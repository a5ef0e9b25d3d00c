SPECIFICATION Spec
INVARIANTS Decides Explains NoSolveOnError Emit
CHECK_DEADLOCK FALSE
