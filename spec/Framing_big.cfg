SPECIFICATION Spec
CONSTANTS
  Writers = {1, 2}
  MsgsOf <- MsgsB
  Window = 6
  CanDie = TRUE
  Locked = TRUE
  LoopSend = TRUE
  LoopRecv = TRUE
  EofFails = TRUE
INVARIANTS Exact Arrived
CHECK_DEADLOCK FALSE
