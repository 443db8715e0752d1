SPECIFICATION Spec
CONSTANTS
  Servers = {1,2,3}
  MaxLen = 24
  MaxHooks = 2
  CanBusy = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
