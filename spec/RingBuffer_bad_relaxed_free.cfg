SPECIFICATION Spec
CONSTANTS Cap = 3
 MaxPush = 5
 MaxPops = 3
 MaxAsk = 2
 Wrong = {"relaxed_free"}
INVARIANTS NoRace Fifo Bounded
PROPERTY RefusalJustified
CHECK_DEADLOCK FALSE
