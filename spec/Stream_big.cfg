SPECIFICATION Spec
CONSTANTS Bug = "none"
 Cs = {1,2}
 Len1 <- L4
 Buf = 4
 Halts = TRUE
INVARIANTS Once Start Over Prompt Ended
PROPERTIES Never Ends
CHECK_DEADLOCK FALSE
