SPECIFICATION Spec
CONSTANTS Bug = "eof"
 Cs = {1,2}
 Len1 <- L3
 Buf = 3
 Halts = TRUE
INVARIANTS Once Start Over Prompt Ended
PROPERTIES Never Ends
CHECK_DEADLOCK FALSE
