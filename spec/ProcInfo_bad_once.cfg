SPECIFICATION Spec
CONSTANTS Procs = {1,2}
 Ids = {1}
 Names = {"a", "b"}
 MaxOps = 5
 MaxQ = 2
 Bug = "once"
INVARIANTS Truth

CHECK_DEADLOCK FALSE
