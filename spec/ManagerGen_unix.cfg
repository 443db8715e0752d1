SPECIFICATION Spec
CONSTANTS
  Servers = {1,2,3}
  MaxLen = 14
  MaxHooks = 2
  CanBusy = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
