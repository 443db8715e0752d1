SPECIFICATION Fair
CONSTANTS a = a
 b = b
 c = c
 Threads = {a, b}
 Id <- MCId
 Cap = 1
 Events = 2
 OrphanBuffers = TRUE
 TakeAtomic = TRUE
 DropNewest = TRUE
 MergeById = TRUE
 KeepWithoutTransport = TRUE
 OneBatch = TRUE
PROPERTY Arrives
CHECK_DEADLOCK FALSE
