SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT RoundTrip
INVARIANT Stable
INVARIANT Cuts
INVARIANT Emit
