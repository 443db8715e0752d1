SPECIFICATION Spec
CONSTANTS Bug = "none"
 Max = 4
 Times = {1,2,3}
 Procs = {1,2}
 What = {0,1,2,3,8}
INVARIANT Right
CHECK_DEADLOCK FALSE
