SPECIFICATION Spec
CONSTANTS a = a
 b = b
 c = c
 Threads = {a, b, c}
 Id <- MCId
 Cap = 2
 Events = 3
 OrphanBuffers = TRUE
 TakeAtomic = TRUE
 DropNewest = TRUE
 MergeById = TRUE
 KeepWithoutTransport = TRUE
 OneBatch = TRUE
INVARIANTS ExactlyOnce Reachable
CHECK_DEADLOCK FALSE
