SPECIFICATION Spec
CONSTANTS Clients = {1,2,3}
 MaxLen = 50
INVARIANT Emit
CHECK_DEADLOCK FALSE
