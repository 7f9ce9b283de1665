SPECIFICATION TSpec
INVARIANT LFInv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
