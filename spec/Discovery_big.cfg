SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  MaxInc = 2
  MaxConn = 4
  Dedup = TRUE
  CloseAll = TRUE
INVARIANTS Truth Dead
CHECK_DEADLOCK FALSE
