SPECIFICATION Spec
CONSTANTS Slots = {1,2,3,4}
 MaxLen = 45
INVARIANT Emit
CHECK_DEADLOCK FALSE
