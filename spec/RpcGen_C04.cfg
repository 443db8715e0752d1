SPECIFICATION GSpec
CONSTANTS
  Clients = {1, 2}
  Threads = {1, 2}
  Kinds = {"e1", "l1", "m1", "g1", "nope"}
  BKinds = {"b1"}
  MaxReq = 12
  MaxB = 3
  MaxLen = 36
  Allow = {"drop", "dropnow", "poll", "calm"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
