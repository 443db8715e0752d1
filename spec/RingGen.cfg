SPECIFICATION Spec
CONSTANTS MaxCap = 4
 MaxOps = 3
CHECK_DEADLOCK FALSE
