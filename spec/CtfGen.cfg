SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
