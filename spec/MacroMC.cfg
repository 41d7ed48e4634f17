SPECIFICATION Spec
CONSTANT MaxLen = 5
CONSTANT Mode = "dsc"
INVARIANT Ok
INVARIANT CallerWins
INVARIANT LastWins
INVARIANT Scoped
INVARIANT Stays
INVARIANT Emit
