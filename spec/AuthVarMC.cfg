SPECIFICATION Spec
INVARIANT ReadsBack
INVARIANT CutRefused
INVARIANT Accounted
INVARIANT Emit
