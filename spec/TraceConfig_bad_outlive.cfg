SPECIFICATION Spec
CONSTANTS Ids = {1,2}
 MaxInst = 3
 MaxOps = 5
 MaxDepth = 2
 Bug = "outlive"
INVARIANTS Truth NoLeftover
PROPERTIES OnlyAsked Own
CHECK_DEADLOCK FALSE
