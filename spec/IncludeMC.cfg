SPECIFICATION Spec
INVARIANT Inlined
INVARIANT StackBounded
INVARIANT Emit
