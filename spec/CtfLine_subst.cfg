SPECIFICATION Spec
CONSTANTS Bug = "none"
 Cuts = FALSE
 Subst = TRUE
 Max1 = 0
 Max2 = 1
 Max3 = 1
INVARIANTS Exact NoMore Safe
CHECK_DEADLOCK FALSE
