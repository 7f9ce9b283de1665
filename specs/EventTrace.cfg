SPECIFICATION TSpec
INVARIANT EventInv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
