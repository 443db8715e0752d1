SPECIFICATION Spec
CONSTANTS Cap = 3
 MaxPush = 6
 MaxPops = 5
 MaxAsk = 3
 Wrong = {}
INVARIANTS NoRace Fifo Bounded
PROPERTY RefusalJustified
CHECK_DEADLOCK FALSE
