---------------------------- MODULE MCEventInst ----------------------------
EXTENDS Naturals
CONSTANT Big
VARIABLES kind, npos, pend, wait, calls, todo, got, begun, ended, seen, subdone, res
W == 1..3
C == IF Big THEN 1..3 ELSE 1..2
K(s) == IF s = 1 THEN "all" ELSE IF s = 2 THEN "any" ELSE "one"
V(s) == IF s <= 2 THEN <<1, 2>> ELSE <<(s % 2) + 1>>
L(c) == c # 2
INSTANCE MCEvent WITH Waiters <- W, Calls <- C, EvOf <- V, KindOf <- K, InlOf <- L
=============================================================================
