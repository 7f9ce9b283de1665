SPECIFICATION Spec
INVARIANTS LTInv DetachedHasHandle NoStopUnasked NoUseAfterFree FreedAtTheEnd
PROPERTY JoinEnds
