SPECIFICATION GSpec
CONSTANTS
  Clients = {1, 2, 3}
  Threads = {1, 2}
  Kinds = {"e1", "e2", "m1", "z1", "s1", "nope"}
  BKinds = {"b1", "b2", "e1", "r1"}
  MaxReq = 10
  MaxB = 8
  MaxLen = 34
  Allow = {"close", "drop", "dropnow"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
