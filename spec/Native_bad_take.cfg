SPECIFICATION Spec
CONSTANTS a = a
 b = b
 c = c
 Threads = {a, b}
 Id <- MCId
 Cap = 2
 Events = 2
 OrphanBuffers = TRUE
 TakeAtomic = FALSE
 DropNewest = TRUE
 MergeById = TRUE
 KeepWithoutTransport = TRUE
 OneBatch = TRUE
INVARIANTS ExactlyOnce Reachable
CHECK_DEADLOCK FALSE
