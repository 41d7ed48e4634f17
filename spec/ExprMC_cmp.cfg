SPECIFICATION Spec
CONSTANT MaxLen = 6
CONSTANT Mode = "cmp"
INVARIANT MachineRefines
INVARIANT SingleFaultRejected
INVARIANT Emit
