SPECIFICATION Spec
INVARIANTS Owned CallerSafe NoLeak Emit
PROPERTY Separate
CHECK_DEADLOCK FALSE
