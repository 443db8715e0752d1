SPECIFICATION Spec
CONSTANTS
  MaxProc = 6
  MaxAlive = 4
  MaxLen = 26
  MaxConn = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
