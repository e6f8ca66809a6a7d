----------------------------- MODULE TimeLookup -----------------------------
(* Time steps no other step is closer than; none outside the recorded range.  *)
EXTENDS Integers, Sequences, SequencesExt

TAbs(a) == IF a < 0 THEN -a ELSE a
Recorded(times, t) == t >= times[1] /\ t <= times[Len(times)]
Nearest(times, t) == FoldLeft(LAMBDA d, x : IF TAbs(x - t) < d THEN TAbs(x - t) ELSE d, TAbs(times[1] - t), times)
Closest(times, t) ==
  IF ~Recorded(times, t) THEN {}
  ELSE LET d == Nearest(times, t) IN {k \in 1..Len(times) : TAbs(times[k] - t) = d}
\* the step used by the analyses; the sessions have no ties
Later(times, t) == LET c == Closest(times, t) IN IF c = {} THEN 0 ELSE CHOOSE k \in c : TRUE
=============================================================================
