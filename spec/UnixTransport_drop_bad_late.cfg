SPECIFICATION Spec
CONSTANTS
  Clients = {1}
  Requests = {1, 2, 3}
  Plan <- PlanB
  Served = {"e", "f", "m"}
  Answering = {"e", "f"}
  MaxB = 0
  CanKill = FALSE
  CanDrop = TRUE
  CanClose = FALSE
  RegisterFirst = TRUE
  Fifo = TRUE
  FailOnLoss = TRUE
  OnlyIdZero = FALSE
  KeyById = TRUE
INVARIANTS RightValue NothingWrong QuietOK OnceInOrder
PROPERTY Refines
CHECK_DEADLOCK FALSE
