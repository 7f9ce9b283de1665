-------------------------------- MODULE Latch --------------------------------
(***************************************************************************)
(* dd::latch: a counter that only goes down, coroutines that wait for zero *)
(* and continue on the latch's executor.                                   *)
(* The counter is kept as what is left of it, in decrements of any size.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES left,    \* units left
          dec,     \* count-downs begun and not effective: [c, n]
          begun,   \* waits in progress: [w, must (may not block)]
          rcalls   \* ready() in progress: c -> TRUE iff surely zero since it began
lvars == <<left, dec, begun, rcalls>>

LInit(n) == left = n /\ dec = {} /\ begun = {} /\ rcalls = << >>
Zero == left = 0

\* count_down(n), or the arriving half of arrive_and_wait
DownBegin(c, n) == dec' = dec \cup {[c |-> c, n |-> n]} /\ UNCHANGED <<left, begun, rcalls>>
Down(d) == d \in dec /\ left >= d.n /\ left' = left - d.n /\ dec' = dec \ {d} /\ UNCHANGED <<begun, rcalls>>
DownEnd(c) == (\A d \in dec : d.c # c) /\ UNCHANGED lvars

\* coroutine w waits; a wait on a latch that is at zero does not block
WaitBegin(w, arr) ==
  /\ \A b \in begun : b.w # w
  /\ begun' = begun \cup {[w |-> w, must |-> ~arr /\ Zero]}
  /\ UNCHANGED <<left, dec, rcalls>>
\* the call that waits returned to its caller (the coroutine suspended, or has gone on)
WaitReturns(w) == (\A b \in begun : b.w = w => ~b.must) /\ UNCHANGED lvars
\* inl: it continues inside its own call; place: where suspended waiters have to continue
Run(w, inl, place) ==
  /\ \E b \in begun : b.w = w /\ begun' = begun \ {b}
                      /\ (b.must => inl) /\ (inl \/ place)
  /\ Zero
  /\ UNCHANGED <<left, dec, rcalls>>
ReadyBegin(c) == rcalls' = (c :> Zero) @@ rcalls /\ UNCHANGED <<left, dec, begun>>
ReadyEnd(c, ret) ==
  /\ IF ret THEN Zero ELSE ~rcalls[c]
  /\ rcalls' = [x \in DOMAIN rcalls \ {c} |-> rcalls[x]] /\ UNCHANGED <<left, dec, begun>>
\* nothing moves any more
Quiet == dec = {} /\ (Zero => begun = {}) /\ UNCHANGED lvars
=============================================================================
