SPECIFICATION GSpec
CONSTANTS
  Clients = {1, 2, 3}
  Threads = {1}
  Kinds = {"e1", "m1", "g1"}
  BKinds = {"b1", "b2", "e1", "r1"}
  MaxReq = 6
  MaxB = 12
  MaxLen = 32
  Allow = {"close", "drop"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
