SPECIFICATION Spec
INVARIANTS Involution StepMax MinMax Emit
CHECK_DEADLOCK FALSE
