SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANT OrderFree
INVARIANT OneInstance
INVARIANT Supported
INVARIANT OverrideWins
INVARIANT ScopeOrder
INVARIANT Emit
