SPECIFICATION FairSpec
CONSTANTS
  Clients = {1}
  Requests = {1, 2}
  Plan <- PlanB
  Served = {"e", "f", "m"}
  Answering = {"e", "f"}
  MaxB = 0
  CanKill = TRUE
  CanDrop = TRUE
  CanClose = FALSE
  RegisterFirst = TRUE
  Fifo = TRUE
  FailOnLoss = TRUE
  OnlyIdZero = TRUE
  KeyById = TRUE
PROPERTY Resolved
CHECK_DEADLOCK FALSE
