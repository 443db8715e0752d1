SPECIFICATION Spec
CONSTANTS Cap = 2
 MaxPush = 4
 MaxPops = 3
 MaxAsk = 2
 Wrong = {}
INVARIANTS NoRace Fifo Bounded
PROPERTY RefusalJustified
CHECK_DEADLOCK FALSE
