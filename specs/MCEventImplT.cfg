CONSTANT Big = TRUE
SPECIFICATION Spec
INVARIANTS EventInv NoUseAfterFree QuietAtRest Waits AnyWaits
