SPECIFICATION Spec
CONSTANTS Cap = 3
 MaxPush = 5
 MaxPops = 3
 MaxAsk = 2
 Wrong = {"free_first"}
INVARIANTS NoRace Fifo Bounded
PROPERTY RefusalJustified
CHECK_DEADLOCK FALSE
