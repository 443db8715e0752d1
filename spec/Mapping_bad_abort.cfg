SPECIFICATION Spec
CONSTANTS Procs = {1,2}
 Threads = {1,2}
 Places = {1,2}
 Ids = {1,2}
 Names = {"a", "b"}
 MaxExec = 2
 MaxQ = 1
 Bug = "abort"
INVARIANT Truth
CHECK_DEADLOCK FALSE
