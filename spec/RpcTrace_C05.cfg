SPECIFICATION TSpec
CONSTANT Focus = {"conn","rpc"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
