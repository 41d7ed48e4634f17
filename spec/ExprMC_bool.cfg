SPECIFICATION Spec
CONSTANT MaxLen = 6
CONSTANT Mode = "bool"
INVARIANT MachineRefines
INVARIANT SingleFaultRejected
INVARIANT Emit
