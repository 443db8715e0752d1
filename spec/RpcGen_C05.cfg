SPECIFICATION GSpec
CONSTANTS
  Clients = {1, 2}
  Threads = {1, 2}
  Kinds = {"e1", "m1", "g1", "l1", "nope"}
  BKinds = {"b1", "b2"}
  MaxReq = 10
  MaxB = 3
  MaxLen = 28
  Allow = {"drop", "kill", "stop", "up", "poll"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
