SPECIFICATION Spec
CONSTANT MaxOps = 3
CONSTANT Deep = FALSE
INVARIANT NoTwice
INVARIANT RoundTrip
INVARIANT Stable
INVARIANT Entries
INVARIANT Progress
INVARIANT Emit
