-------------------------- MODULE MCEventImplInst --------------------------
EXTENDS Naturals
CONSTANT Big
VARIABLES kind, npos, pend, wait, calls, todo, got, spc, stack, npc, popped, box, dl, cnt, inp, alive, touched
W == IF Big THEN 1..3 ELSE 1..2
C == 1..3
K(s) == IF s = 1 THEN "all" ELSE IF s = 2 THEN "any" ELSE "one"
V(s) == IF s <= 2 THEN <<1, 2>> ELSE <<1>>
L(c) == c # 3
N(c) == IF c = 2 THEN 2 ELSE 1
INSTANCE MCEventImpl WITH Waiters <- W, Calls <- C, EvOf <- V, KindOf <- K, InlOf <- L, NoteOf <- N
=============================================================================
