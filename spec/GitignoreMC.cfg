SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT OnlyNegated
INVARIANT Anchoring
INVARIANT Whole
INVARIANT LastWins
INVARIANT Emit
