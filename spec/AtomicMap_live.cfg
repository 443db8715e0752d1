SPECIFICATION Spec
CONSTANTS Threads = {1,2}
 Keys = {1,2}
 Vals = {1,2}
 MaxOps = 2
 Unlocked = {}
INVARIANT Atomic
PROPERTY Ends
CHECK_DEADLOCK FALSE
