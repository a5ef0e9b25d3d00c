SPECIFICATION Spec
INVARIANTS InteriorInv StepInv OptimalInv SolvedInv
PROPERTIES ShrinkProp
CHECK_DEADLOCK FALSE
