SPECIFICATION TSpec
INVARIANT GInv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
