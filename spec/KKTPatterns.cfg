SPECIFICATION Spec
INVARIANTS IsBlock Symmetric Size NoDup DiagLast Emit
CHECK_DEADLOCK FALSE
