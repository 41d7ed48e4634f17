SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT InfsExact
INVARIANT FilesExact
INVARIANT SectsExact
INVARIANT Emit
