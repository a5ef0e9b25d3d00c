SPECIFICATION Spec
INVARIANTS OptimumFeasible OptimumIsGlobal Complementary Emit
CHECK_DEADLOCK FALSE
