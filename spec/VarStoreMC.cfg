SPECIFICATION Spec
CONSTANT MaxOps = 5
CONSTANT Room = 116
VIEW View
INVARIANT ReadBack
INVARIANT Outside
INVARIANT Opens
INVARIANT Emit
