SPECIFICATION Spec
CONSTANT MaxBlocks = 3
INVARIANT Pcds
INVARIANT Libs
INVARIANT Flashed
INVARIANT Apart
INVARIANT Emit
