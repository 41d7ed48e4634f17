SPECIFICATION Spec
CONSTANT MaxLen = 6
CONSTANT MaxDepth = 3
INVARIANT MachineIsDeclarative
INVARIANT DepthAgrees
INVARIANT Emit
PROPERTY OneBranch
