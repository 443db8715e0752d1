SPECIFICATION Spec
CONSTANTS
  Writers = {1, 2}
  MsgsOf <- MsgsA
  Window = 4
  CanDie = TRUE
  Locked = TRUE
  LoopSend = TRUE
  LoopRecv = TRUE
  EofFails = TRUE
INVARIANTS Exact Arrived
CHECK_DEADLOCK FALSE
