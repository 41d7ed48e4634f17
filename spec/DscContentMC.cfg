SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT ScopedComplete
INVARIANT OverridesLocal
INVARIANT CompsPerArch
INVARIANT LibsCount
INVARIANT Emit
