SPECIFICATION Spec
INVARIANTS TreeAgrees CountsAgree RowsAgree PathClosed Emit
CHECK_DEADLOCK FALSE
