SPECIFICATION TSpec
INVARIANT KInv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
