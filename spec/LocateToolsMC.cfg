SPECIFICATION Spec
CONSTANT MaxDirs = 3
INVARIANT Found
INVARIANT Kept
INVARIANT Ends
INVARIANT Emit
CHECK_DEADLOCK FALSE
