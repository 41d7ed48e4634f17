SPECIFICATION Spec
CONSTANT MaxNodes = 3
CONSTANT Deep = FALSE
INVARIANT Compose
INVARIANT Covers
INVARIANT Tells
INVARIANT Emit
