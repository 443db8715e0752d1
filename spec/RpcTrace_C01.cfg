SPECIFICATION TSpec
CONSTANT Focus = {"rpc"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
