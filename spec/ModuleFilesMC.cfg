SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT FT = "inf"
INVARIANT Counts
INVARIANT Monotone
INVARIANT Emit
