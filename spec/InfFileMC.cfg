SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANT Holds
INVARIANT All
INVARIANT Numbers
INVARIANT Dates
INVARIANT Emit
