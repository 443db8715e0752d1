SPECIFICATION Spec
CONSTANTS a = a
 b = b
 c = c
 Threads = {a, b}
 Id <- MCId
 Cap = 2
 Events = 2
 OrphanBuffers = TRUE
 TakeAtomic = TRUE
 DropNewest = TRUE
 MergeById = TRUE
 KeepWithoutTransport = FALSE
 OneBatch = TRUE
INVARIANTS ExactlyOnce Reachable
CHECK_DEADLOCK FALSE
