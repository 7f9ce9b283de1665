SPECIFICATION TSpec
INVARIANT LTInv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
