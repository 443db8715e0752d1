SPECIFICATION TSpec
CONSTANT Focus = {"rpc","bcast","drop"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
