SPECIFICATION Spec
CONSTANTS Threads = {1,2,3}
 Keys = {1,2}
 Vals = {1,2}
 MaxOps = 5
 Unlocked = {}
INVARIANT Atomic

CHECK_DEADLOCK FALSE
