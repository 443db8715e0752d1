SPECIFICATION GSpec
CONSTANTS
  Clients = {1, 2}
  Threads = {1, 2}
  Kinds = {"e1", "e2", "m1", "g1", "z1", "l1", "nope"}
  BKinds = {"b1", "b2", "e1", "r1"}
  MaxReq = 10
  MaxB = 4
  MaxLen = 26
  Allow = {"close", "drop"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
