SPECIFICATION Spec
CONSTANTS Keys = {1,2,3}
 Registry = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
