SPECIFICATION Spec
CONSTANTS Sources = {1,2,3}
 MaxLen = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
