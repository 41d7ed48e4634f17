SPECIFICATION Spec
CONSTANT MaxLines = 3
CONSTANT Room = 2
INVARIANT Stuck
INVARIANT InOrder
INVARIANT AsSpecified
INVARIANT Emit
PROPERTY Ends
