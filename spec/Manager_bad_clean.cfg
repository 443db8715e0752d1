SPECIFICATION FairSpec
CONSTANTS
  Servers = {1, 2}
  Offers <- OffersA
  Factories <- FactoriesA
  MaxInc = 2
  MaxRounds = 2
  NullCheck = TRUE
  Catch = TRUE
  Retry = TRUE
  CleanDead = FALSE
INVARIANTS NeverCrashes Mirror OnePer
PROPERTY Ends
CHECK_DEADLOCK FALSE
