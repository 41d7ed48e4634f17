SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Stated
INVARIANT Week
INVARIANT Emit
