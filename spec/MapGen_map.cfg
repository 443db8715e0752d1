SPECIFICATION Spec
CONSTANTS Keys = {1,2,3}
 Registry = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
