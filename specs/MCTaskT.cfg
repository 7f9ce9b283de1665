SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS KInv NoUseAfterFree OneResume FirstSuccess
PROPERTIES Continues AllOver
