SPECIFICATION Spec
CONSTANTS Bug = "nocheck"
 Cuts = TRUE
 Subst = FALSE
 Max1 = 1
 Max2 = 2
 Max3 = 0
INVARIANTS Exact NoMore Safe
CHECK_DEADLOCK FALSE
