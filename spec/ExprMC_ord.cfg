SPECIFICATION Spec
CONSTANT MaxLen = 6
CONSTANT Mode = "ord"
INVARIANT MachineRefines
INVARIANT SingleFaultRejected
INVARIANT Emit
