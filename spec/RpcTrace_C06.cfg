SPECIFICATION TSpec
CONSTANT Focus = {"rpc","life"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
