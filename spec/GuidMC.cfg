SPECIFICATION Spec
CONSTANT Vals = {1, 2}
CONSTANT Points = {5, 12}
INVARIANT ReadsBack
INVARIANT RegReadsBack
INVARIANT Prefixes
INVARIANT Emit
