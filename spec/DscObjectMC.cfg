SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANT Unique
INVARIANT Sections
INVARIANT Kinds
INVARIANT Latest
INVARIANT LatestIn
INVARIANT Written
INVARIANT OneHeader
INVARIANT Emit
