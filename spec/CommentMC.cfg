SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT PrefixOf
INVARIANT NoComment
INVARIANT Idempotent
INVARIANT FirstHash
INVARIANT Emit
