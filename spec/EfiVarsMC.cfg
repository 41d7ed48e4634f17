SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANT ReadBack
INVARIANT Kept
INVARIANT One
INVARIANT Emit
CHECK_DEADLOCK FALSE
