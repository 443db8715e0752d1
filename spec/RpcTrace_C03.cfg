SPECIFICATION TSpec
CONSTANT Focus = {"bcast"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
