SPECIFICATION Spec
CONSTANTS Procs = {1,2,3}
 Threads = {1,2,3}
 NSites = 130
 MaxLen = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
