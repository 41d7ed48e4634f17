SPECIFICATION Spec
CONSTANT MaxOps = 6
VIEW View
INVARIANT Sizes
INVARIANT Uniform
INVARIANT NothingLost
INVARIANT RoundTrip
INVARIANT CanonFacts
INVARIANT Emit
