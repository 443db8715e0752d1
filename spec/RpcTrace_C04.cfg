SPECIFICATION TSpec
CONSTANT Focus = {"rpc","drop"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
