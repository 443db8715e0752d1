SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  MaxInc = 2
  MaxConn = 3
  Dedup = FALSE
  CloseAll = TRUE
INVARIANTS Truth Dead
CHECK_DEADLOCK FALSE
