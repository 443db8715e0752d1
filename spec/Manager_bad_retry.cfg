SPECIFICATION FairSpec
CONSTANTS
  Servers = {1, 2}
  Offers <- OffersA
  Factories <- FactoriesA
  MaxInc = 2
  MaxRounds = 2
  NullCheck = TRUE
  Catch = TRUE
  Retry = FALSE
  CleanDead = TRUE
INVARIANTS NeverCrashes Mirror OnePer
PROPERTY Ends
CHECK_DEADLOCK FALSE
