SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Requests = {1, 2}
  Plan <- PlanA
  Served = {"e", "f", "m"}
  Answering = {"e", "f"}
  MaxB = 2
  CanKill = FALSE
  CanDrop = FALSE
  CanClose = FALSE
  RegisterFirst = TRUE
  Fifo = FALSE
  FailOnLoss = TRUE
  OnlyIdZero = TRUE
  KeyById = TRUE
INVARIANTS RightValue NothingWrong QuietOK OnceInOrder
PROPERTY Refines
CHECK_DEADLOCK FALSE
