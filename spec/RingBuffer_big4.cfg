SPECIFICATION Spec
CONSTANTS Cap = 4
 MaxPush = 7
 MaxPops = 4
 MaxAsk = 4
 Wrong = {}
INVARIANTS NoRace Fifo Bounded
PROPERTY RefusalJustified
CHECK_DEADLOCK FALSE
