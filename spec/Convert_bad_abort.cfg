SPECIFICATION Spec
CONSTANTS Bug = "abort"
 Max = 3
 Times = {1,2}
 Procs = {1,2}
 What = {0,1,2,3,8}
INVARIANT Right
CHECK_DEADLOCK FALSE
