CONSTANT Big = FALSE
SPECIFICATION MCSpec
INVARIANTS EventInv ResumedByOverlapping NobodyLeftBehind AllNeedsAll AllResumed AnyResumed
CHECK_DEADLOCK FALSE
