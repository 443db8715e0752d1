SPECIFICATION TSpec
CONSTANT Focus = {"rpc","bcast"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
