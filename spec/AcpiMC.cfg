SPECIFICATION Spec
CONSTANT MaxSubs = 2
CONSTANT Deep = FALSE
INVARIANT RoundTrip
INVARIANT Reads
INVARIANT Emit
