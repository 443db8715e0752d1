SPECIFICATION FairSpec
CONSTANTS
  Servers = {1, 2}
  Offers <- OffersA
  Factories <- FactoriesA
  MaxInc = 3
  MaxRounds = 4
  NullCheck = TRUE
  Catch = TRUE
  Retry = TRUE
  CleanDead = TRUE
INVARIANTS NeverCrashes Mirror OnePer
PROPERTY Ends
CHECK_DEADLOCK FALSE
