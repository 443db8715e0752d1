SPECIFICATION Spec
CONSTANTS Threads = {1,2,3}
 MaxLen = 26
 Remote = 25
 Par = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
