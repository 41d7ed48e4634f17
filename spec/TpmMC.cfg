SPECIFICATION Spec
CONSTANT MaxOps = 2
CONSTANT Deep = FALSE
INVARIANT Injective
INVARIANT SizeRight
INVARIANT Emit
