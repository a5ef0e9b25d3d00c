SPECIFICATION Spec
INVARIANTS TypeOK Bounds NoFillOnForests Emit
CHECK_DEADLOCK FALSE
