SPECIFICATION GSpec
CONSTANTS
  Clients = {1, 2}
  Threads = {1}
  Kinds = {"e1", "e2", "m1", "t1", "x1", "nope"}
  BKinds = {"b1"}
  MaxReq = 10
  MaxB = 2
  MaxLen = 26
  Allow = {"bad", "close"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
