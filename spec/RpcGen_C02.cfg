SPECIFICATION GSpec
CONSTANTS
  Clients = {1, 2}
  Threads = {1, 2}
  Kinds = {"e1", "e2", "z1", "l1"}
  BKinds = {"b1", "b2"}
  MaxReq = 8
  MaxB = 4
  MaxLen = 20
  Allow = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE
