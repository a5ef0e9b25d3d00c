SPECIFICATION Spec
INVARIANTS Truth Split Idempotent Emit
CHECK_DEADLOCK FALSE
