------------------------------ MODULE Buffers ------------------------------
(* The read buffers of the data managers: a window lo..hi-1 of the steps of   *)
(* the file, and B slots, of which those beyond the window keep what they     *)
(* held before.  A step outside the window moves the window: forwards to      *)
(* start at the step, backwards to the chunk of B steps the step lies in.     *)
EXTENDS Integers, Sequences
CONSTANT B

Junk == -1
Least(a, b) == IF a < b THEN a ELSE b
EmptyBuffer == [lo |-> 0, hi |-> 0, slot |-> [k \in 0..(B - 1) |-> Junk]]
Filled(b, lo, hi, T) ==
  LET top == Least(hi, T)
  IN [lo |-> lo, hi |-> top, slot |-> [k \in 0..(B - 1) |-> IF lo + k < top THEN lo + k ELSE b.slot[k]]]

Chunk(t) == (t \div B) * B
\* `size` is the number of steps a forward move asks for
Moved(b, t, size, T) ==
  IF t >= b.hi THEN Filled(b, t, t + size, T)
  ELSE IF t < b.lo THEN Filled(b, Chunk(t), Chunk(t) + B, T)
  ELSE b
\* the main buffer asks for as many steps as the last move gave
MainSize(b) == b.hi - b.lo
Slot(b, t) == t - b.lo
Held(b, t) == b.slot[Slot(b, t)]
=============================================================================
