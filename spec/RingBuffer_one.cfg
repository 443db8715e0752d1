SPECIFICATION Spec
CONSTANTS Cap = 1
 MaxPush = 3
 MaxPops = 2
 MaxAsk = 2
 Wrong = {}
INVARIANTS NoRace Fifo Bounded
PROPERTY RefusalJustified
CHECK_DEADLOCK FALSE
