SPECIFICATION Spec
INVARIANTS AsyncInv NoUseAfterFree FreedAtTheEnd
PROPERTY WaitEnds
