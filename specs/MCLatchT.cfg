SPECIFICATION Spec
CONSTANTS
  Waiters = {w1, w2, w3}
  Arrivers = {a1, a2}
  Downers = {d1, d2}
INVARIANTS NoEarly Once AllReleased
PROPERTIES Terminates Refines
