CONSTANT Big = FALSE
SPECIFICATION Spec
INVARIANTS EventInv NoUseAfterFree QuietAtRest Waits AnyWaits
