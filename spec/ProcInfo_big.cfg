SPECIFICATION Spec
CONSTANTS Procs = {1,2}
 Ids = {1,2}
 Names = {"a", "b"}
 MaxOps = 7
 MaxQ = 2
 Bug = "none"
INVARIANTS Truth
 Entries
CHECK_DEADLOCK FALSE
