SPECIFICATION Spec
CONSTANTS Bug = "none"
 Cuts = TRUE
 Subst = FALSE
 Max1 = 1
 Max2 = 2
 Max3 = 1
INVARIANTS Exact NoMore Safe
CHECK_DEADLOCK FALSE
