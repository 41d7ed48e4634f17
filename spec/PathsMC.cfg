SPECIFICATION Spec
CONSTANT MaxFiles = 2
CONSTANT MaxPps = 2
CONSTANT Depth = 3
INVARIANT RoundTrip
INVARIANT Shortest
INVARIANT Outside
INVARIANT Nearest
INVARIANT PkgHasDec
INVARIANT Emit
