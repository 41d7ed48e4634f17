SPECIFICATION Spec
CONSTANT MaxOps = 2
CONSTANT MaxVarOps = 4
CONSTANT Deep = FALSE
INVARIANT PlainRound
INVARIANT VarRound
INVARIANT VarAligned
INVARIANT BmpRound
INVARIANT NewRound
INVARIANT AttrRound
INVARIANT Emit
