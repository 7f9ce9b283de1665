SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS KInv NoUseAfterFree OneResume FirstSuccess
PROPERTIES Continues AllOver
