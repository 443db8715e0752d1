SPECIFICATION Spec
CONSTANTS Sources = {1,2}
 Msgs = 3
 Ops = 4
 Bug = "keep"
INVARIANTS Complete Only Once InOrder
CHECK_DEADLOCK FALSE
