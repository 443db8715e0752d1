SPECIFICATION Spec
CONSTANTS Procs = {1,2}
 Threads = {1,2}
 Places = {1,2}
 Ids = {1,2}
 Names = {"a", "b"}
 MaxExec = 3
 MaxQ = 2
 Bug = "none"
INVARIANT Truth
CHECK_DEADLOCK FALSE
