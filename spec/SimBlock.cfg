SPECIFICATION Spec
INVARIANTS Current Emit
PROPERTY Separate
CHECK_DEADLOCK FALSE
