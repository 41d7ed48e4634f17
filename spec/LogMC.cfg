SPECIFICATION Spec
CONSTANT MaxOps = 3
CONSTANT MaxRep = 4
CONSTANT Threads = 2
CONSTANT Msgs = 2
INVARIANT Clear
INVARIANT Same
INVARIANT Kept
INVARIANT Counts
INVARIANT Whole
INVARIANT Merged Shown Settled
INVARIANT Emit
PROPERTY Once
