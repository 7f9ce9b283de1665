SPECIFICATION Spec
CONSTANTS
  Waiters = {w1, w2}
  Arrivers = {a1, a2}
  Downers = {d1}
INVARIANTS NoEarly Once AllReleased
PROPERTIES Terminates Refines
