SPECIFICATION TSpec
INVARIANT AsyncInv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
