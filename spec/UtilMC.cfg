SPECIFICATION Spec
CONSTANT MaxParts = 3
CONSTANT MaxClasses = 4
CONSTANT MaxLen = 40
INVARIANT Antisym
INVARIANT ZeroTail
INVARIANT Transitive
INVARIANT Specific
INVARIANT SameWidth
INVARIANT Emit
