SPECIFICATION Spec
CONSTANT MaxOps = 5
INVARIANT UniquePaths
INVARIANT NothingLost
INVARIANT EnvPerParse
INVARIANT Again
INVARIANT SourcesKnown
INVARIANT Emit
