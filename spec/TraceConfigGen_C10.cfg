SPECIFICATION Spec
CONSTANTS Threads = {1,2,3}
 MaxLen = 30
 Remote = 3
 Par = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
