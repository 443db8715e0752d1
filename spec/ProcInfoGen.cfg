SPECIFICATION Spec
CONSTANTS Procs = {1,2,3}
 Threads = {1,2,3}
 MaxLen = 45
INVARIANT Emit
CHECK_DEADLOCK FALSE
