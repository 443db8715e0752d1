SPECIFICATION Spec
CONSTANTS NNames = 26
 NSeries = 6
 NFiles = 8
 NLines = 40
 N = 130
INVARIANT Emit
CHECK_DEADLOCK FALSE
