SPECIFICATION Spec
CONSTANTS Sources = {1,2,3}
 MaxLen = 36
INVARIANT Emit
CHECK_DEADLOCK FALSE
