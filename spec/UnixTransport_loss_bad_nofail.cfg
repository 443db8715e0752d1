SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Requests = {1, 2, 3}
  Plan <- PlanA
  Served = {"e", "f", "m"}
  Answering = {"e", "f"}
  MaxB = 0
  CanKill = TRUE
  CanDrop = FALSE
  CanClose = FALSE
  RegisterFirst = TRUE
  Fifo = TRUE
  FailOnLoss = FALSE
  OnlyIdZero = TRUE
  KeyById = TRUE
INVARIANTS RightValue NothingWrong QuietOK OnceInOrder
PROPERTY Refines
CHECK_DEADLOCK FALSE
